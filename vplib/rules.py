"""Rules over the whole type-checked crate."""
import re

FORBID = [
    (r'^std::fs::(?!read$|read_to_string$|canonicalize$|metadata$)|^std::fs::File::(create|options)|^std::fs::OpenOptions|^fs_err::(?!read$|read_to_string$|canonicalize$|File::open$|metadata$)', 'writes, removes or lists files'),
    (r'^std::process::|^std::net::|^std::thread::(spawn|scope|Builder)|^std::os::|^libc::|^tokio::|^rayon::', 'starts or talks to something outside'),
    (r'^std::env::(?!current_dir$)', 'depends on the environment'),
    (r'^std::time::(SystemTime|Instant)::now|^chrono::.*now|^rand::|^getrandom::', 'depends on time or chance'),
]


def callees(x, out):
    if isinstance(x, dict):
        if 'rpath' in x or ('path' in x and 'targs' in x):
            out.add(x.get('rpath') or x['path'])
            out.add(x['path'])
        for v in x.values():
            callees(v, out)
    elif isinstance(x, list):
        for v in x:
            callees(v, out)


def forbidden(facts):
    k, bad = 0, []
    tys = {}
    for f in facts['fns']:
        if not f.get('local', True):
            continue
        cs = set()
        callees(f['blocks'], cs)
        for c in sorted(x for x in cs if x):
            k += 1
            for pat, why in FORBID:
                if re.search(pat, c):
                    bad.append(('%s (%s) calls %s, which %s' % (f['path'], f['span'], c, why),))
    return k, bad


def unsafe(facts):
    k, bad = 0, []
    for i in facts['items']:
        k += 1
        if i.get('unsafe') and not i.get('derive') and '::_::' not in i['path'] and not i['path'].endswith('::_'):
            bad.append(('%s (%s) is unsafe code' % (i['path'], i['span']),))
    return k, bad


def decoder(facts):
    """bytes become text only in the shared decoder"""
    k, bad = 0, []
    for f in facts['fns']:
        cs = set()
        callees(f['blocks'], cs)
        for c in sorted(x for x in cs if x):
            if re.search(r'String::from_utf8|str::from_utf8|from_utf8_lossy|Encoding::decode|EncodingDetector|from_utf8_unchecked', c):
                k += 1
                if not f['path'].startswith('crate::read_to_string'):
                    bad.append(('%s (%s) decodes bytes on its own through %s' % (f['path'], f['span'], c),))
    if k < 1:
        bad.append(('no decoding of bytes was found at all',))
    return k, bad


RULES = dict(forbidden=forbidden, unsafe=unsafe, decoder=decoder)
