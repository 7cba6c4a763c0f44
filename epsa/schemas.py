"""The schema corpus: small messages which together contain every field type in every position the generator distinguishes."""
from .msgs import Enum, F, Msg, File, SC

SCALARS = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'fixed32', 'sfixed32', 'float', 'fixed64', 'sfixed64', 'double']


def one():
    """every scalar and enum type alone: plain, optional; all values"""
    E = Enum('Kind', [('NONE', 0), ('ONE', 1), ('BIG', 300), ('HUGE', 2147483647)])
    ms = [E]
    for i, t in enumerate(SCALARS):
        ms.append(Msg('P' + t, [F('x', t, 1, full=True)]))
        ms.append(Msg('O' + t, [F('x', t, 15, 'optional', full=True)]))
    ms.append(Msg('Penum', [F('x', E, 1, full=True)]))
    A = Enum('Alias', [('NO', 0), ('OFF', 0), ('YES', 7), ('ON', 7), ('MAYBE', 3), ('AYE', 7)])
    ms += [A, Msg('Palias', [F('x', A, 3)])]
    ms.append(Msg('Oenum', [F('x', E, 16, 'optional', full=True)]))
    S = Enum('Signed', [('ZERO', 0), ('BELOW', -1), ('LOWEST', -2147483648), ('HIGHEST', 2147483647)])
    ms += [S, Msg('Pneg', [F('x', S, 1, full=True)]), Msg('Oneg', [F('x', S, 14, 'optional', full=True)]), Msg('Rneg', [F('x', S, 2, 'repeated', 2)])]
    return File('one', 'one', ms)


def rep():
    E = Enum('Kind', [('NONE', 0), ('ONE', 1), ('BIG', 300)])
    ms = [E]
    for i, t in enumerate(SCALARS):
        ms.append(Msg('R' + t, [F('r', t, 1, 'repeated', 3, tiny=t.startswith('sint'))]))
    ms.append(Msg('Renum', [F('r', E, 2, 'repeated', 3)]))
    ms.append(Msg('Tuint32', [F('r', 'uint32', 3, 'repeated')]))
    return File('rep', 'rep', ms)


def text():
    return File('text', 'text', [
        Msg('Str', [F('s', 'string', 1, maxlen=4)]), Msg('Byt', [F('b', 'bytes', 2, maxlen=5)]),
        Msg('OStr', [F('s', 'string', 3, 'optional', maxlen=4)]), Msg('OByt', [F('b', 'bytes', 4, 'optional', maxlen=5)]),
        Msg('TStr', [F('s', 'string', 1)]), Msg('TByt', [F('b', 'bytes', 2), F('s', 'string', 5)]),
        Msg('RStr', [F('s', 'string', 1, 'repeated')]), Msg('RByt', [F('b', 'bytes', 2, 'repeated')]),
        Msg('MStr', [F('s', 'string', 1, 'repeated', 2)]), Msg('MByt', [F('b', 'bytes', 2, 'repeated', 1)]),
        Msg('Mix', [F('a', 'uint32', 1), F('s', 'string', 2, maxlen=3), F('b', 'bytes', 3, maxlen=3)]),
        Msg('Long', [F('s', 'string', 1, maxlen=200)]),
    ])


def long():
    """contents of more than 255 bytes"""
    L = Msg('Text', [F('s', 'string', 1, maxlen=300)])
    return File('long', 'long_', [L, Msg('Wrap', [F('t', L, 1)]), Msg('Words', [F('r', 'fixed64', 1, 'repeated', 33)])])


def oneofs():
    E = Enum('Kind', [('NONE', 0), ('ONE', 1), ('BIG', 300)])
    In = Msg('Inner', [F('x', 'uint32', 1), F('y', 'sfixed32', 2)])
    ms = [E, In]
    for t in SCALARS:
        ms.append(Msg('C' + t, [], [('c', [F('x', t, 1, full=True), F('other', 'bool', 2)])]))
    ms += [
        Msg('Cenum', [], [('c', [F('e', E, 1, full=True), F('u', 'uint32', 2)])]),
        Msg('Cmsg', [], [('c', [F('m', In, 1), F('u', 'uint32', 2)])]),
        Msg('Ctext', [], [('c', [F('s', 'string', 1, maxlen=3), F('b', 'bytes', 2, maxlen=4)])]),
        Msg('Cmix', [F('before', 'uint32', 1)], [('pick', [F('m', In, 2), F('s', 'string', 3, maxlen=3), F('e', E, 4), F('d', 'double', 5)])]),
        Msg('Ctwo', [], [('c', [F('a', 'uint32', 1), F('b', 'fixed64', 2)]), ('d', [F('m', In, 3), F('f', 'float', 4)])]),
        Msg('Cboth', [F('o', 'uint32', 7, 'optional')], [('c', [F('m1', In, 1), F('m2', In, 2)])]),
    ]
    return File('oneofs', 'oneofs', ms)


def nested():
    In = Msg('Inner', [F('x', 'uint32', 1, tiny=True), F('o', 'sint32', 2, 'optional', tiny=True)])
    Deep = Msg('Deep', [F('i', In, 1), F('z', 'fixed32', 2)])
    return File('nested', 'nest.ed', [
        In, Deep,
        Msg('Plain', [F('i', In, 1)]), Msg('Opt', [F('i', In, 1, 'optional')]), Msg('Rep', [F('i', In, 1, 'repeated', 3)]),
        Msg('RepT', [F('i', In, 2, 'repeated')]),
        Msg('Two', [F('d', Deep, 1), F('u', 'uint32', 2)]),
        Msg('Outer', [F('u', 'uint32', 3)], nested=[Msg('Sub', [F('v', 'uint32', 1)])]),
        scoped(),
        Msg('Empty', []), hasempty(),
    ])


def scoped():
    K = Enum('Mode', [('OFF', 0), ('ON', 7)])
    S = Msg('Part', [F('k', K, 1, tiny=True), F('n', 'uint32', 2, tiny=True)])
    return Msg('Scoped', [F('p', S, 1), F('k', K, 2, tiny=True), F('ps', S, 3, 'repeated', 2)], nested=[S], enums=[K])


def hasempty():
    E = Msg('Nil', [])
    return Msg('HasEmpty', [F('a', E, 1), F('b', E, 2, 'optional')], [('c', [F('e', E, 3), F('u', 'uint32', 4)])], nested=[E])


def order():
    """declaration order, field numbers, sizes of tags"""
    return File('order', '', [
        Msg('Shuffled', [F('c', 'uint32', 3), F('a', 'uint32', 1), F('b', 'uint32', 2)]),
        Msg('Numbers', [F('n15', 'bool', 15), F('n16', 'bool', 16), F('n2047', 'bool', 2047), F('n2048', 'bool', 2048)]),
        Msg('Numbers2', [F('n262143', 'bool', 262143), F('n262144', 'bool', 262144), F('n33554431', 'bool', 33554431), F('n33554432', 'bool', 33554432), F('nmax', 'bool', 536870911)]),
        Msg('TextNumbers', [F('s', 'string', 70000, maxlen=2), F('r', 'fixed32', 100000, 'repeated', 2)]),
    ])


def many():
    """more optional fields than fit in one and in two presence words"""
    return File('many', 'many', [
        Msg('O32', [F('f%d' % i, 'bool', i + 1, 'optional') for i in range(32)]),
        Msg('O33', [F('f%d' % i, 'bool', i + 1, 'optional') for i in range(33)]),
        Msg('O66', [F('f%d' % i, 'bool', i + 1, 'optional') for i in range(66)]),
        Msg('Omix', [F('p', 'uint32', 1), F('a', 'uint32', 2, 'optional'), F('q', 'bool', 3), F('s', 'string', 4, 'optional', maxlen=3), F('z', 'double', 5, 'optional')]),
    ])


def imports():
    C = Enum('Colour', [('RED', 0), ('GREEN', 1)])
    B = Msg('Base', [F('x', 'uint32', 1, tiny=True)])
    lib = File('lib', 'lib.v1', [C, B])
    user = File('user', 'app', [Msg('User', [F('b', B, 1), F('c', C, 2, tiny=True), F('bs', B, 3, 'repeated', 2)], [('k', [F('ob', B, 4), F('oc', C, 5, tiny=True)])])], imports=['lib'])
    return [lib, user]


def combo():
    """oneofs inside of messages in every position, several oneofs, large field numbers of every kind"""
    E = Enum('Kind', [('NONE', 0), ('ONE', 1)])
    In = Msg('Inner', [F('x', 'uint32', 1, tiny=True)])
    C = Msg('Choice', [], [('c', [F('a', 'uint32', 1, tiny=True), F('s', 'string', 2, maxlen=2)])])
    return File('combo', 'combo', [
        E, In, C, Msg('PC', [F('c', C, 1)]), Msg('OC', [F('c', C, 1, 'optional')]), Msg('RC', [F('c', C, 1, 'repeated', 2)]),
        Msg('CC', [], [('d', [F('c', C, 1), F('u', 'uint32', 2, tiny=True)])]),
        Msg('Three', [], [('a', [F('x', 'bool', 1), F('y', 'fixed32', 2)]), ('b', [F('m', In, 3), F('z', 'bool', 4)]), ('c', [F('e', E, 5), F('t', 'bytes', 6, maxlen=2)])]),
        Msg('Far', [F('m', In, 70000), F('e', E, 70001, tiny=True), F('o', 'fixed32', 70002, 'optional')]),
        Msg('FarRep', [F('ms', In, 70003, 'repeated', 2), F('b', 'bytes', 70004, 'optional', maxlen=2)]),
        Msg('FarPick', [], [('p', [F('m', In, 70000), F('s', 'string', 70001, maxlen=2), F('u', 'uint32', 70002, tiny=True), F('e', E, 70003, tiny=True)])]),
    ])


def templ():
    In = Msg('Inner', [F('s', 'string', 1), F('r', 'uint32', 2, 'repeated')])
    return File('templ', 'templ', [In, Msg('Holder', [F('i', In, 1), F('b', 'bytes', 2)]),
                                   Msg('Choice', [], [('c', [F('i', In, 1), F('b', 'bytes', 2)])]),
                                   Msg('Opt', [F('i', In, 1, 'optional'), F('b', 'bytes', 2, 'optional')])])


FILES = [one(), rep(), text(), oneofs(), nested(), order(), many(), long(), combo()] + imports() + [templ()]
