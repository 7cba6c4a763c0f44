"""What is analysed for each property."""
import os, threading
from . import build, msgs, schemas
from .driver import analyse
from .build import HERE
from . import structure as st


def harness(name, flags=()):
    return lambda: build.to_json([os.path.join(HERE, 'harness', name + '.cpp')], name, flags=flags)


def ai(*jobs):
    """abstract interpretation of harness entries; job = (harness, entry regex[, tier])"""
    def part(prop, tier, res):
        js = []
        for j in jobs:
            if len(j) > 2 and j[2] == 'thorough' and tier != 'thorough':
                continue
            js.append((j[0], harness(j[0]), j[1], {}))
        analyse(prop, js, res)
    return part


_gen = {}
_lock = threading.Lock()


def corpus():
    """the schema corpus written out and put through /repo's generator"""
    with _lock:
        if not _gen:
            d = os.path.join(build.scratch(), 'schemas')
            protos, hs = msgs.emit(schemas.FILES, d)
            try:
                inc = build.generate(protos, d, os.path.join(build.scratch(), 'gen'))
                _gen.update(hs=hs, inc=inc)
            except build.BuildError as e:
                _gen['err'] = e
    if 'err' in _gen:
        raise _gen['err']
    return _gen['hs'], _gen['inc']


def msgmod(name, mod=None, flags=()):
    def b():
        hs, inc = corpus()
        return build.to_json([hs[name]], mod or 'm_' + name, incs=[inc], flags=flags)
    return b


def bigmod():
    d = os.path.join(HERE, 'harness')
    inc = build.generate(['big.proto'], d, os.path.join(build.scratch(), 'biggen'))
    return build.to_json([os.path.join(d, 'big.cpp')], 'big', incs=[inc])


def big(rx, det=40, **opts):
    """messages of more than 65535 bytes"""
    return lambda prop, t, res: analyse(prop, [('big', bigmod, rx, dict(opts, det=det))], res)


def wide(rx, tier=None, **opts):
    """repeated fields of many elements: constants are propagated through their loops"""
    def part(prop, t, res):
        if tier and t != tier:
            return
        analyse(prop, [('wide', harness('wide'), rx, dict(opts, det=1000000))], res)
    return part


def widetext(prop, t, res):
    analyse(prop, [('widetext', harness('widetext', ['-std=c++17', '-DMSG_TO_STRING']), '.*', dict(det=1000000, wall=200))], res)


ALLF = [f.name for f in schemas.FILES]


def textmod(name):
    return msgmod(name, 't_' + name, ['-std=c++17', '-DMSG_TO_STRING'])


def msg(rx, files=ALLF, tier=None, **opts):
    """abstract interpretation of the entries of the message harnesses"""
    def part(prop, t, res):
        if tier and t != tier:
            return
        analyse(prop, [('m_' + n, msgmod(n), rx, opts) for n in files], res, optional=True)
    return part


def text(rx, files=[f for f in ALLF if f != 'long'], tier=None, **opts):
    """the same for the text rendering of messages, which is only compiled with MSG_TO_STRING"""
    def part(prop, t, res):
        if tier and t != tier:
            return
        analyse(prop, [('t_' + n, textmod(n), rx, opts) for n in files], res, optional=True)
    return part


AI = ('Abstract interpretation (trace-partitioned, polyhedral inequalities and GF(2) bit expressions, joins and widening at '
      'loops) of the LLVM IR that clang emits for /repo\'s current sources, from harness entries whose inputs are abstract '
      'values; every memory access and every contract assertion reached is an obligation. ')
TRUST = ['clang 18 lowers the sources faithfully to LLVM IR', 'the abstract interpreter in /verif/epsa',
         'little-endian 64 bit host data layout']

PROPS = {}


def prop(id, explanation, *parts, **kw):
    PROPS[id] = dict(parts=parts, explanation=AI + explanation if kw.pop('ai', True) else explanation, assumptions=kw.pop('assume', TRUST), **kw)


prop('C01', 'Arbitrary histories of calls with arbitrary arguments on the fixed size buffers and sections of several capacities.',
     ai(('wbuf', 'wbuf_.*'), ('rbuf', '.*')))
prop('C02', 'Arbitrary histories of calls on the write buffer against a ghost model of its content.', ai(('wbuf', 'wbuf_.*')))
prop('C03', 'Arbitrary histories of calls on the read buffer and on sections against a ghost model of position and content.', ai(('rbuf', '.*')))
prop('C06', 'Every value of every scalar type against a reference encoder.', ai(('codec', 'enc_.*|val_.*'), ('wire', 'wire_.*')))
prop('C07', 'Every byte string against a reference decoder, for every scalar type and for tags.', ai(('codec', 'dec_.*|wt_.*|val_.*'), ('wire', 'wire_read_.*')))
prop('C19', 'Every value of every scalar type, every way to put it into a field and to look at it, and every pair of values compared with every operator.',
     ai(('wire', '(wrap|comp)_.*'), ('codec', 'enc_.*|val_.*')))
NOT = r'(?!text_parse_(b300|s300|b70000)|rep_hostile_u3|rep_history_s2)'
prop('C04', 'String, bytes and repeated fields of several capacities: every operation from every state with arbitrary arguments and arbitrary wire data.',
     ai(('text', NOT + '.*'), ('repeated', NOT + '.*')), wide('wide_.*_300|wide_(set|add.|over|append|excess|text)_70000', wall=200))
prop('C05', 'String, bytes and repeated fields: every operation from every state against a sequence model.',
     ai(('text', NOT + '.*'), ('repeated', NOT + '.*')), wide('wide_.*_300|(?!wide_parse)wide_.*_70000|wide_bytes', wall=200),
     wide('wide_parse_70000', tier='thorough', wall=900, steps=60_000_000))

MSG = 'Messages generated by /repo\'s current generator for a corpus of schemas holding every field type in every position. '
prop('C08', MSG + 'Every content set through the API is compared byte for byte with a reference encoding written from the schema.',
     ai(('text', NOT + '.*'), ('repeated', NOT + '.*')), msg('(ser|tight|round|cpy_clear|cpy_new)_.*'), big('big_write_.*'))
prop('C09', MSG + 'Reference encodings of arbitrary content, of single fields and pairs of fields into messages with arbitrary content, unknown fields; all inputs of up to four arbitrary bytes, and up to four behind the tag of each field (six in the thorough tier), against a reference decoder written from the schema.',
     msg('(parse|merge|field|pair|round|cut|type|unk.*|zero|reff?[1-4])_.*'), msg('reff?[56]_.*', tier='thorough', wall=600), big('big_skip'))
prop('C10', MSG + 'Write buffers of every size and write buffers that refuse at will.',
     ai(('text', 'text_(flaky|tight|write).*'), ('repeated', 'rep_(flaky|tight|write).*'), ('wire', 'wire_.*')), msg('(tight|flaky|ser)_.*'), big('big_(write|small)_.*'))
prop('C11', MSG + 'Every cut of every encoding, other wire types, zero and overlong tags, groups, bad lengths; all inputs of up to four arbitrary bytes, and up to four behind the tag of each field (six in the thorough tier), against a reference decoder written from the schema.',
     ai(('text', NOT + 'text_(parse|type|long|read).*'), ('repeated', NOT + 'rep_(parse|cut|type|text|prefix).*')),
     msg('(type|cut|unkcut|unkcut0|unkcutlen|unkbad|zero|overtag|parse|field|reff?[1-4])_.*'), msg('reff?[56]_.*', tier='thorough', wall=600), msg('unkcut2_.*', ['lib', 'order']))
prop('C13', MSG + 'The announced size and every length prefix against the bytes written.',
     ai(('text', NOT + 'text_(write|tight|get).*'), ('repeated', NOT + 'rep_(write|tight).*'), ('wire', 'size_.*')), msg('(ser|tight|cpy_new|cpy_clear)_.*'), big('big_write_.*'))
prop('C16', MSG + 'Presence of optional fields after every operation, copy and parse.',
     msg('(api|cpy_.*|parse|merge|field|pair|round|ser)_.*', ['one', 'text', 'nested', 'oneofs', 'many', 'combo', 'templ']))
prop('C17', MSG + 'Selection and content of oneofs after every operation, copy and parse, from every other selection.',
     msg('(api|cpy_.*|parse|merge|field|pair|round|ser|type)_.*', ['oneofs', 'nested', 'user', 'templ', 'combo']))
prop('C18', MSG + 'Copying, moving, assigning, clearing and single operations from every content.', msg('(api|cpy_.*|ser)_.*'))
prop('C12', MSG + 'All inputs of up to four arbitrary bytes (six in the thorough tier), and up to three arbitrary bytes behind the tag of each field, for every message: a loop must not come back to the same state, and data that has ended must not be asked for again and again.',
     ai(('repeated', NOT + 'rep_(hostile|prefix|parse|cut).*'), ('text', NOT + 'text_(parse|read|long).*')), msg('(hostile|wild4)_.*'), msg('wild[56]_.*', tier='thorough', wall=600))
prop('C14', MSG + 'Content is compared before and after every serialization and size computation; call graph reachability of writable variables with static storage.',
     st.structure(st.no_shared, ['wbuf', 'rbuf', 'codec', 'wire', 'text', 'repeated'], ALLF),
     ai(('text', 'text_(flaky|tight|write|get).*'), ('repeated', 'rep_(flaky|tight|write|read).*'), ('wire', 'size_.*')), msg('(ser|tight)_.*'))
prop('C15', 'Reachability in the call graph of the linked LLVM IR of the library and of the code generated for the schema corpus: allocation functions, exceptions, stack objects of variable size, cycles of direct calls.',
     st.structure(st.no_heap, ['wbuf', 'rbuf', 'codec', 'wire', 'text', 'repeated'], ALLF), ai=False, assume=TRUST[:1] + ['virtual calls only reach the overriders in the linked program'])
prop('C22', MSG + 'Numbers and names of fields, values of enumerators and the accessors of every field against the schema.',
     msg('(names|api|cpy_new)_.*|enum.*'))

prop('C20', MSG + 'Rendering as text into arrays of every size: bounds, termination, what is left; snprintf is modelled by the bounds of what it writes and reads.',
     text('tostr_.*|crop_(?!Numbers2).*'), text('crop_Numbers2', tier='thorough', wall=900), widetext)
prop('C23', MSG + 'The text is compared word by word with one written from the schema; the text of a number is an opaque word that stands for the conversion and the value.',
     text('say_.*'), widetext)
from . import compile as cp
prop('C21', 'Type checking, by two compilers in every supported language standard, of each library header used alone, and of the code generated for the schema corpus, for schemas with unusual nesting, order and names and for pseudo-randomly composed schemas.',
     cp.compiles(24), ai=False, assume=['the type checkers of clang 18 and gcc 13', 'libstdc++ headers'])
