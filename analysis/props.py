"""Which facts and rules decide which property."""
import re

IMG = r'as Decoder>::image$|::image_a100$|::image_srf$'
D = 'decoders::'


def pick(spec, *pats):
    """pats: 'regex' (all facts) or ('regex', 'factregex')"""
    out = {}
    for p in pats:
        rx, fx = (p, None) if isinstance(p, str) else p
        n = 0
        for q, f in spec['facts'].items():
            if not re.search(rx, q):
                continue
            n += 1
            if fx is None:
                out[q] = None
            elif out.get(q, ()) is not None:
                ks = {k for k in (f or {}) if re.search(fx, k)}
                if ks:
                    out.setdefault(q, set())
                    out[q] |= ks
        if not n:
            raise AssertionError('no function matches ' + rx)
    return out


FIELDS = lambda *f: '^img\\.(%s)$' % '|'.join(f)

OBLIG = {
    'C01': ['^decode$', '<RawLoader>::decode_safe$', '<RawLoader>::decode$'],
    'C03': [('tiff::<TiffIFD>::(new|new_root|new_fuji|new_makernote|new_file)$', '^ok$'), ('ciff::<CiffIFD>::new', '^ok$')],
    'C05': ['^decoders::packed::', 'basics::decode_threaded', 'basics::<LookupTable>', 'basics::(BE|LE)'],
    'C06': ['^decoders::basics::(BE|LE|clampbits|<Endian>)', '^decoders::pumps::', 'BitPumpPanasonic', '^decoders::<Buffer>::new$'],
    'C08': ['<RawLoader>::check_supported', (IMG, '^ok$|^img\\.(make|model|clean_make|clean_model)$'), '<RawLoader>::get_decoder$', 'dng::<DngDecoder>::(get|new)'],
    'C09': ['<Camera>::', '<RawLoader>::new$', 'LOADER', '<RawLoader>::check_supported', 'cfa::<CFA>::new$'],
    'C10': ['<RawLoader>::(get_decoder|decode|new)$', '::is_(mrw|ciff|ari|x3f)$', 'tiff::<TiffIFD>::(new_file|has_entry|find_entry)$', '<Buffer>::new$',
            'ciff::<CiffIFD>::new_file$', 'nkd::'],
    'C11': [(r'.', r'^(ok|some)$')],
    'C12': ['<Orientation>::', 'imageops::transform::', (IMG, FIELDS('orientation')), ('image::<RawImage>::new$|::ok_image', FIELDS('orientation')),
            'imageops::decoder$', ('check_supported', 'orientation|^val$')],
    'C13': ['cfa::<CFA>::', 'cropped_cfa$', 'is_monochrome$', (IMG, FIELDS('cfa')), 'dng::<DngDecoder>::get_cfa$', ('image::<RawImage>::new$|::ok_image', FIELDS('cfa')),
            ('<Camera>::(new|update_from_toml)$', 'cfa|^a0$')],
    'C14': [(IMG, FIELDS('make', 'model', 'clean_make', 'clean_model', 'xyz_to_cam', 'crops')), 'dng::<DngDecoder>::get_(color_matrix|crops)$',
            ('image::<RawImage>::new$|::ok_image', FIELDS('make', 'model', 'clean_make', 'clean_model', 'xyz_to_cam', 'crops'))],
    'C15': [(IMG, FIELDS('wb_coeffs')), '::get_wb$', 'mos::<MosDecoder>::xmp_tag$', 'sony_decrypt$', 'mrw::<MrwDecoder>::new$',
            ('image::<RawImage>::new$|::ok_image', FIELDS('wb_coeffs'))],
    'C16': ['^decoders::tiff::', '^decoders::ciff::', 'mrw::(<MrwDecoder>::new|is_mrw)$', 'x3f::.*new$', 'Decoder>::new$', 'x3f::is_x3f'],
    'C17': ['imageops::(gofloat|demosaic|level)::', 'imageops::<OpBuffer>::', 'imageops::(decoder|simple_decode|simple_decode_linear|do_timing)$',
            'image::<RawImage>::to_', 'cropped_cfa$', 'is_monochrome$', 'imageops::transform::'],
    'C18': ['^decoders::ljpeg::', 'pumps::(<ByteStream>|<BitPumpJPEG|BitPump::)'],
    'C19': ['::(arw|crw|dcr|iiq|nef|orf|pef|rw2|srw|mos|tfr|cr2|raf|x3f)::.*::(decode_\\w+|srw2_diff|create_hufftable|get_curve|convert_to_rgb|rotate_image|get_bits)$',
            'crw::<CrwHuffTable>', '__static_ref_initialize', 'BitPumpPanasonic', 'basics::<LookupTable>', 'nef::.*SNEF', 'pumps::'],
    'C21': [(IMG, FIELDS('data', 'width', 'height', 'cpp')), 'dng::<DngDecoder>::decode_', 'raf::<RafDecoder>::rotate_image$', 'image::<RawImage>::new$', '::ok_image',
            'Decoder>::decode_\\w+$', 'crw::', 'x3f::'],
    'C22': [(IMG, FIELDS('blacklevels', 'whitelevels')), '::get_(black|white)levels$', ('image::<RawImage>::new$|::ok_image', FIELDS('blacklevels', 'whitelevels')),
            ('<Camera>::(new|update_from_toml)$', 'level|black|^a0$')],
    'C23': ['imageops::(colorspaces|curves|gamma|level)::', 'image::<RawImage>::(cam_to_xyz|neutralwb|pseudoinverse|xyz_matrix_and_neutralwb|to_)', 'imageops::(decoder|simple_decode\\w*)$',
            'imageops::<OpBuffer>::(process_into_new|mutate_lines)$', 'do_timing$'],
}
# checks that refuse to call a run complete below these many facts
FLOOR = 0.9


def oblig(pid, spec):
    return pick(spec, *OBLIG[pid]) if pid in OBLIG else {}

FORM = ('Every listed function is evaluated abstractly on its MIR into a value graph (all inputs, all paths, loops as recurrences, '
        'parallel line loops as maps); its result, its writes and the condition for success must have the reviewed normal form, or one the '
        'reviewed program has too after inlining.')
ASSUME = ['rustc type-checked MIR is the program', 'models of the standard library calls in analysis/models.py',
          '64-bit index arithmetic does not overflow (debug builds panic, which C01 contains)',
          'a fact that mentions a construct the evaluator does not model is reported as undetermined, not as a violation']
META = {}
for _p in ('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23').split():
    META[_p] = {'level': 'other', 'rule': FORM}
META['C01']['rule'] = 'Call-graph reachability from the public decode functions: no panicking check, panicking call, file access or decoder is reachable outside catch_unwind; no abort/exit/hook call and no panicking destructor; no panic=abort profile. ' + FORM
META['C02']['rule'] = 'Every body, call site, type and static of the crate: no unsafe block, raw-pointer dereference, unsafe or foreign call, transmute, mutable or non-Sync static outside code expanded from lazy_static.'
META['C03']['rule'] = 'Every natural loop is driven by a finite iterator, or a counter that strictly moves to a loop-invariant bound, or is one of the reviewed data-driven loops (same recurrence); every recursive cycle counts depth and is guarded by it.'
META['C04']['rule'] = 'Closures handed to parallel iterators write only to the chunk they are given and share nothing mutable; no random, clock, thread or environment value and no hash-map iteration order reaches results; no mutable global state.'
META['C07']['rule'] = 'For every function that returns pixel data the length is derived from its value graph as a polynomial over its parameters; for every image the length of the data, callee lengths substituted, must be width*height*channels in every case of success (as polynomials, using the equalities the success condition tests).'
META['C20']['rule'] = 'Effect analysis over every call site: the library opens one file read-only at the path it was given and does nothing else to the system; the binaries only create the output file.'
META['C09']['rule'] = 'The camera files are parsed and held against the invariants of the table and the reviewed entries; the code that loads and looks them up has the reviewed normal form. ' + FORM
