"""Schemas and the harnesses generated from them. The schema objects below are the oracle: the .proto text, the ghost model of
a message, its reference encoding and the checks are all written from them, independently of the generator in /repo."""
import os
from .build import HERE

SC = {'int32': ('int32', 0), 'int64': ('int64', 0), 'uint32': ('uint32', 0), 'uint64': ('uint64', 0), 'sint32': ('sint32', 0),
      'sint64': ('sint64', 0), 'bool': ('boolean', 0), 'fixed32': ('fixed32', 5), 'sfixed32': ('sfixed32', 5), 'float': ('floatfixed', 5),
      'fixed64': ('fixed64', 1), 'sfixed64': ('sfixed64', 1), 'double': ('doublefixed', 1)}
CT = {'int32': 'int32_t', 'int64': 'int64_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t', 'sint32': 'int32_t', 'sint64': 'int64_t',
      'bool': 'bool', 'fixed32': 'uint32_t', 'sfixed32': 'int32_t', 'float': 'float', 'fixed64': 'uint64_t', 'sfixed64': 'int64_t', 'double': 'double'}
T = {'string': 3, 'bytes': 4, 'repeated': 2}   # values given to the template parameters


class Enum:
    def __init__(self, name, values):
        self.name = name; self.values = values; self.scope = []; self.outer = None

    def cpp(self):
        return (self.outer.cpp() + '::' if self.outer else '::' + '::'.join(self.scope) + ('::' if self.scope else '')) + self.name

    def ref(self):
        return (self.outer.ref() if self.outer else '.' + '.'.join(self.scope)).rstrip('.') + '.' + self.name

    def proto(self):
        alias = 'option allow_alias = true; ' if len({v for _, v in self.values}) < len(self.values) else ''
        return 'enum %s { %s%s }' % (self.name, alias, ' '.join('%s = %d;' % v for v in self.values))


class F:
    def __init__(self, name, type, num, label='', maxlen=0, full=False, tiny=False):
        self.name = name; self.type = type; self.num = num; self.label = label; self.maxlen = maxlen; self.full = full; self.tiny = tiny
        self.oneof = None

    # kinds
    def scalar(self): return isinstance(self.type, str) and self.type in SC
    def text(self): return self.type in ('string', 'bytes')
    def enum(self): return isinstance(self.type, Enum)
    def msg(self): return isinstance(self.type, Msg)
    def rep(self): return self.label == 'repeated'
    def opt(self): return self.label == 'optional'
    def cap(self): return self.maxlen or T['repeated' if self.rep() else self.type]
    def textcap(self): return self.maxlen or T[self.type]

    def params(self):
        """the template parameters, in the order in which they are declared"""
        if self.msg():
            own = self.type.params()
        else:
            own = [T[self.type]] if self.text() and not self.maxlen else []
        return ([T['repeated']] if self.rep() and not self.maxlen else []) + own

    def nparams(self):
        return len(self.params())

    def eptype(self):
        if self.scalar(): return 'EmbeddedProto::' + SC[self.type][0]
        if self.enum(): return 'EmbeddedProto::enumeration<%s>' % self.type.cpp()
        if self.text(): return 'EmbeddedProto::Field%s<%d>' % (self.type.capitalize(), self.textcap())
        return self.type.cpp()

    def K(self):
        if self.scalar() or self.enum(): return 'KScalar<%s, %d>' % (self.eptype(), 0 if self.full else 2 if self.tiny else 1)
        if self.text(): return 'KText<%s, %s, %d>' % (self.eptype(), 'char' if self.type == 'string' else 'uint8_t', self.textcap())
        return 'K_' + self.type.id()

    def V(self):
        return 'Rep<%s, %d>' % (self.K(), self.cap()) if self.rep() else 'typename %s::V' % self.K() if False else '%s::V' % self.K()

    def wire(self):
        if self.rep() or self.text() or self.msg(): return 2
        return 0 if self.enum() else SC[self.type][1]

    def proto(self):
        t = self.type if isinstance(self.type, str) else self.type.ref()
        return '%s%s %s = %d%s;' % (self.label + ' ' if self.label else '', t, self.name, self.num,
                                    ' [(EmbeddedProto.options).maxLength = %d]' % self.maxlen if self.maxlen else '')


class Msg:
    def __init__(self, name, fields=(), oneofs=(), nested=(), enums=(), checks=None):
        self.name = name; self.fields = list(fields); self.oneofs = [(n, list(fs)) for n, fs in oneofs]
        self.nested = list(nested); self.enums = list(enums); self.scope = []; self.outer = None; self.checks = checks
        for n in self.nested: n.outer = self
        for e in self.enums: e.outer = self
        for n, fs in self.oneofs:
            for f in fs: f.oneof = n

    def all(self):
        return self.fields + [f for _, fs in self.oneofs for f in fs]

    def large(self):
        return len(self.all()) > 8

    def focus(self):
        return [f for i, f in enumerate(self.fields) if i in (0, 31, 32, 33, 63, 64) or i == len(self.fields) - 1]

    def params(self):
        return [p for f in self.all() for p in f.params()]

    def nparams(self):
        return len(self.params())

    def cpp(self):
        pre = (self.outer.cpp() if self.outer else '::' + '::'.join(self.scope)).rstrip(':')
        ps = self.params()
        return pre + '::' + self.name + ('<%s>' % ', '.join(map(str, ps)) if ps else '')

    def id(self):
        return (self.outer.id() + '_' if self.outer else '') + self.name

    def ref(self):
        return (self.outer.ref() if self.outer else '.' + '.'.join(self.scope)).rstrip('.') + '.' + self.name

    def proto(self, ind=''):
        o = [ind + 'message %s {' % self.name]
        for e in self.enums: o.append(ind + '  ' + e.proto())
        for m in self.nested: o.append(m.proto(ind + '  '))
        for f in self.fields: o.append(ind + '  ' + f.proto())
        for n, fs in self.oneofs:
            o.append(ind + '  oneof %s {' % n)
            o += [ind + '    ' + f.proto() for f in fs]
            o.append(ind + '  }')
        o.append(ind + '}')
        return '\n'.join(o)


class File:
    def __init__(self, name, package, items, imports=()):
        self.name = name; self.package = package; self.items = items; self.imports = list(imports)
        def walk(x):
            x.scope = package.split('.') if package else []
            if isinstance(x, Msg):
                for y in x.nested + x.enums: walk(y)
        for x in items: walk(x)

    def msgs(self):
        out = []
        def walk(m):
            for n in m.nested: walk(n)
            out.append(m)
        for x in self.items:
            if isinstance(x, Msg): walk(x)
        return out

    def enums(self):
        out = [x for x in self.items if isinstance(x, Enum)]
        for m in self.msgs(): out += m.enums
        return out

    def proto(self):
        o = ['syntax = "proto3";', 'import "embedded_proto_options.proto";'] + ['import "%s.proto";' % i for i in self.imports]
        if self.package: o.append('package %s;' % self.package)
        return '\n'.join(o + [x.proto() for x in self.items]) + '\n'


def q(s):
    return '"%s"' % s


def W(v, p, o, what):
    return 'W{"%s: field values %s", "%s: optional presence %s", "%s: oneof selection %s"}' % (v, what, p, what, o, what)


def g_model(m):
    """the ghost of a message, its default, arbitrary values, reference encoding, assignment and comparison"""
    I = m.id()
    o = []
    # ghost
    o.append('struct G_%s\n{' % I)
    init = []
    for f in m.all():
        o.append('  %s %s;' % (f.V(), f.name))
        init.append('%s(%s)' % (f.name, '' if f.rep() or f.msg() or f.text() else '%s::def()' % f.K()))
        if f.opt():
            o.append('  bool has_%s;' % f.name); init.append('has_%s(false)' % f.name)
    for n, fs in m.oneofs:
        o.append('  uint32_t which_%s;' % n); init.append('which_%s(0)' % n)
    o.append('  G_%s()%s {}\n};' % (I, ' : ' + ', '.join(init) if init else ''))
    # K
    o.append('struct K_%s\n{\n  using V = G_%s;\n  using M = %s;\n  static const uint32_t wire = 2;\n  static V def() { return V(); }' % (I, I, m.cpp()))
    # any
    if m.large():
        # many fields: none or all present, and one of them the other way
        o.append('  static V base()\n  {\n    V g;\n    if(ep_any_bool())\n    {')
        for f in m.fields:
            o.append('      %s' % fixed_value(f).replace('p.', 'g.') + (' g.has_%s = true;' % f.name if f.opt() else ''))
        o.append('    }\n    return g;\n  }')
        o.append('  static V any()\n  {\n    V g = base();\n    switch(pick(0, %d))\n    {' % (len(m.focus()) - 1))
        for i, f in enumerate(m.focus()):
            o.append('      %s' % ('case %d: ' % i if i < len(m.focus()) - 1 else 'default: ') + 'g.has_%s = !g.has_%s; g.%s = %s::def(); if(g.has_%s) { g.%s = %s::any(); } break;' % (f.name, f.name, f.name, f.K(), f.name, f.name, f.K()))
        o.append('    }\n    return g;\n  }')
    else:
        o.append('  static V base() { return any(); }\n  static V any()\n  {\n    V g;')
    for f in m.fields if not m.large() else []:
        if f.opt():
            o.append('    if(ep_any_bool()) { g.has_%s = true; g.%s = %s::any(); }' % (f.name, f.name, f.K()))
        else:
            o.append('    any_%s(g);' % f.name)
    for n, fs in m.oneofs:
        o.append('    switch(ep_any_range(0, %d))\n    {' % len(fs))
        for i, f in enumerate(fs):
            o.append('      case %d: g.which_%s = %d; any_%s(g); break;' % (i, n, f.num, f.name))
        o.append('      default: break;\n    }')
    if not m.large():
        o.append('    return g;\n  }')
    for f in m.all():
        if f.rep() and f.cap() > 16:
            o.append('  static void any_%s(V& g) { switch(pick(0, 2)) { case 0: break; case 1: g.%s.n = 1; break; default: g.%s.n = %d; break; } for(uint32_t i = 0; i < g.%s.n; i = i + 1) { g.%s.v[i] = %s::any(); } }'
                     % (f.name, f.name, f.name, f.cap(), f.name, f.name, f.K()))
        elif f.rep():
            o.append('  static void any_%s(V& g) { g.%s.n = ep_any_range(0, %d); for(uint32_t i = 0; i < g.%s.n; i = i + 1) { g.%s.v[i] = %s::any(); } }'
                     % (f.name, f.name, min(2, f.cap()), f.name, f.name, f.K()))
        else:
            o.append('  static void any_%s(V& g) { g.%s = %s::any(); }' % (f.name, f.name, f.K()))
    # unconditional field encoding
    for f in m.all():
        K = f.K()
        if f.rep() and (f.scalar() or f.enum()):
            b = ('if(0 < g.%s.n) { Count c; for(uint32_t i = 0; i < g.%s.n; i = i + 1) { %s::put(c, g.%s.v[i]); } put_tag(s, %d, 2); put_varint(s, c.n); '
                 'for(uint32_t i = 0; i < g.%s.n; i = i + 1) { %s::put(s, g.%s.v[i]); } }') % (f.name, f.name, K, f.name, f.num, f.name, K, f.name)
        elif f.rep():
            b = 'for(uint32_t i = 0; i < g.%s.n; i = i + 1) { put_tag(s, %d, 2); %s::put(s, g.%s.v[i]); }' % (f.name, f.num, K, f.name)
        else:
            b = 'put_tag(s, %d, %d); %s::put(s, g.%s);' % (f.num, f.wire(), K, f.name)
        o.append('  template<class S> static void put_%s(S& s, const V& g) { %s }' % (f.name, b))
    # canonical encoding
    o.append('  template<class S> static void enc(S& s, const V& g)\n  {')
    for f in m.fields:
        c = '' if f.rep() else 'if(g.has_%s) ' % f.name if f.opt() else 'if(!%s::is_def(g.%s)) ' % (f.K(), f.name)
        o.append('    %s{ put_%s(s, g); }' % (c, f.name))
    for n, fs in m.oneofs:
        for f in fs:
            o.append('    if(%d == g.which_%s) { put_%s(s, g); }' % (f.num, n, f.name))
    o.append('  }')
    o.append('  static uint32_t size(const V& g) { Count c; enc(c, g); return c.n; }')
    o.append('  static bool is_def(const V& g) { return 0 == size(g); }')
    o.append('  template<class S> static void put(S& s, const V& g) { put_varint(s, size(g)); s.enter(); enc(s, g); s.leave(); }')
    # assign by the setters
    for f in m.all():
        o.append('  static void set_%s(M& m, const V& g)\n  {' % f.name)
        K = f.K(); n = f.name
        if f.rep():
            o.append('    for(uint32_t i = 0; i < g.%s.n; i = i + 1) { %s m.add_%s(t); }' % (n, elem(f, 'g.%s.v[i]' % n), n))
        elif f.scalar() or f.enum():
            o.append('    m.set_%s(g.%s);' % (n, n))
        else:
            o.append('    %s::assign(m.mutable_%s(), g.%s);' % (K, n, n))
        o.append('  }')
    o.append('  static void assign(M& m, const V& g)\n  {')
    for f in m.fields:
        o.append('    %sset_%s(m, g);' % ('if(g.has_%s) ' % f.name if f.opt() else '', f.name))
    for n, fs in m.oneofs:
        for f in fs:
            o.append('    if(%d == g.which_%s) { set_%s(m, g); }' % (f.num, n, f.name))
    o.append('  }')
    # comparison
    o.append('  static void eq(const V& g, const M& m, const W& w)\n  {')
    for f in m.fields:
        if f.opt():
            o.append('    ep_check(g.has_%s == m.has_%s(), w.pres);' % (f.name, f.name))
        o.append(cmp_field(f, '    '))
    for n, fs in m.oneofs:
        o.append('    ep_check(g.which_%s == static_cast<uint32_t>(m.get_which_%s()), w.one);' % (n, n))
        for f in fs:
            o.append('    ep_check((%d == g.which_%s) == m.has_%s(), w.one);' % (f.num, n, f.name))
            o.append('    if(%d == g.which_%s)\n    {\n%s\n    }' % (f.num, n, cmp_field(f, '      ')))
    o.append('  }')
    # merge of a decoded message
    o.append('  static bool merge(V& g, const V& p)\n  {\n    bool fits = true;')
    for f in m.fields:
        c = '' if f.rep() else 'if(p.has_%s) ' % f.name if f.opt() else 'if(!%s::is_def(p.%s)) ' % (f.K(), f.name)
        o.append('    %s{ fits = fits && merge_%s(g, p); }' % (c, f.name))
    for n, fs in m.oneofs:
        for f in fs:
            o.append('    if(%d == p.which_%s) { fits = fits && merge_%s(g, p); }' % (f.num, n, f.name))
    o.append('    return fits;\n  }')
    for f in m.all():
        n = f.name
        if f.rep():
            b = ('for(uint32_t i = 0; i < p.%s.n; i = i + 1) { if(%d == g.%s.n) { return false; } g.%s.v[g.%s.n] = p.%s.v[i]; g.%s.n = g.%s.n + 1; } return true;'
                 % (n, f.cap(), n, n, n, n, n, n))
        elif f.msg():
            pre = 'g.has_%s = true; ' % n if f.opt() else ''
            if f.oneof:
                pre = 'if(%d != g.which_%s) { g.which_%s = %d; g.%s = %s::def(); } ' % (f.num, f.oneof, f.oneof, f.num, n, f.K())
            b = pre + 'return %s::merge(g.%s, p.%s);' % (f.K(), n, n)
        else:
            pre = 'g.has_%s = true; ' % n if f.opt() else 'g.which_%s = %d; ' % (f.oneof, f.num) if f.oneof else ''
            b = pre + 'g.%s = p.%s; return true;' % (n, n)
        o.append('  static bool merge_%s(V& g, const V& p) { %s }' % (n, b))
    # reference text
    o.append('#ifdef MSG_TO_STRING\n  static void few(const V& g)\n  {\n    (void)g;')
    for f in m.all():
        if f.rep(): o.append('    for(uint32_t i = 0; i < g.%s.n; i = i + 1) { %s::few(g.%s.v[i]); }' % (f.name, f.K(), f.name))
        else: o.append('    %s::few(g.%s);' % (f.K(), f.name))
    o.append('  }\n  static void say(Text& t, const V& g)\n  {\n    bool first = true; t.lit("{"); (void)g;')
    for f in m.all():
        c = 'if(%d == g.which_%s) ' % (f.num, f.oneof) if f.oneof else ''
        if f.rep():
            b = 't.lit("["); for(uint32_t i = 0; i < g.%s.n; i = i + 1) { if(0 < i) { t.lit(","); } %s::say(t, g.%s.v[i]); } t.lit("]");' % (f.name, f.K(), f.name)
        else:
            b = '%s::say(t, g.%s);' % (f.K(), f.name)
        o.append('    %s{ if(!first) { t.lit(","); } first = false; t.lit("\\"%s\\""); t.lit(":"); %s }' % (c, f.name, b))
    o.append('    t.lit("}");\n  }\n#endif')
    # reference decoder
    o.append('  static int get(Src& s, V& g)\n  {\n    Src c = s; const int r = get_part(s, c); if(ACCEPT == r) { return dec(c, g); }\n'
             '    // cut short: open only if what is there is\n    c.pos = s.pos; c.end = s.end; return ((s.pos < s.end) && (OPEN == dec(c, g))) ? OPEN : REJECT;\n  }')
    o.append('  static int dec(Src& s, V& g)\n  {\n    while(s.pos < s.end)\n    {\n      uint64_t t = 0; int r = get_varint(s, 5, t, OPEN); if(ACCEPT != r) { return r; }\n'
             '      const uint32_t num = static_cast<uint32_t>(t) >> 3; const uint32_t wt = static_cast<uint32_t>(t) & 7U;\n'
             '      if((5U < wt) || (0U == num)) { return REJECT; }\n      switch(num)\n      {')
    for f in m.all():
        n = f.name; K = f.K()
        if f.rep() and (f.scalar() or f.enum()):
            b = ('Src c = s; r = get_part(s, c); while((ACCEPT == r) && (c.pos < c.end)) { %s::V v = %s::def(); r = %s::get(c, v); if(ACCEPT == r) { if(%d == g.%s.n) { r = REJECT; } else { g.%s.v[g.%s.n] = v; g.%s.n = g.%s.n + 1; } } }'
                 % (K, K, K, f.cap(), n, n, n, n, n))
        elif f.rep():
            b = '%s::V v = %s::def(); r = %s::get(s, v); if(ACCEPT == r) { if(%d == g.%s.n) { r = REJECT; } else { g.%s.v[g.%s.n] = v; g.%s.n = g.%s.n + 1; } }' % (K, K, K, f.cap(), n, n, n, n, n)
        else:
            pre = 'g.has_%s = true; ' % n if f.opt() else ''
            if f.oneof:
                pre = 'if(%d != g.which_%s) { g.which_%s = %d; g.%s = %s::def(); } ' % (f.num, f.oneof, f.oneof, f.num, n, K)
            b = pre + 'r = %s::get(s, g.%s);' % (K, n)
        o.append('        case %d: { if(%d != wt) { return REJECT; } %s break; }' % (f.num, f.wire(), b))
    o.append('        default: r = skip_unknown(s, wt); break;\n      }\n      if(ACCEPT != r) { return r; }\n    }\n    return ACCEPT;\n  }')
    o.append('};')
    return '\n'.join(o)


def elem(f, v, t='t'):
    if f.scalar() or f.enum():
        return '%s %s; %s.set(%s);' % (f.eptype(), t, t, v)
    return '%s %s; %s::assign(%s, %s);' % (f.eptype(), t, f.K(), t, v)


def cmp_field(f, ind):
    n = f.name
    if f.rep():
        e = 'm.get_%s().get_const(i)' % n + ('.get()' if f.scalar() or f.enum() else '')
        return ('%sep_check(g.%s.n == m.get_%s().get_length(), w.val);\n%sfor(uint32_t i = 0; i < g.%s.n; i = i + 1) { %s::eq(g.%s.v[i], %s, w); }'
                % (ind, n, n, ind, n, f.K(), n, e))
    return '%s%s::eq(g.%s, m.get_%s(), w);' % (ind, f.K(), n, n)


def g_api(m, f):
    """operations of one field, from every state of the message"""
    I = m.id(); n = f.name; K = f.K()
    ops = []
    w = W('C18', 'C16', 'C17', 'after an operation on a field')
    sel = 'g.has_%s = true; ' % n if f.opt() else 'g.which_%s = %d; ' % (f.oneof, f.num) if f.oneof else ''
    fresh = 'if(%d != g.which_%s) { g.%s = %s::def(); } ' % (f.num, f.oneof, n, K) if f.oneof else ''
    if f.rep():
        ops.append('%s::V v = %s::any(); %s m.add_%s(t); if(g.%s.n < %d) { g.%s.v[g.%s.n] = v; g.%s.n = g.%s.n + 1; }' % (K, K, elem(f, 'v'), n, n, f.cap(), n, n, n, n))
        ext = 'g.%s.v[i] = v; if(g.%s.n <= i) { g.%s.n = i + 1; }' % (n, n, n)
        for i in range(min(3, f.cap())):
            ops.append('const uint32_t i = %d; %s::V v = %s::any(); %s m.set_%s(i, t); %s' % (i, K, K, elem(f, 'v'), n, ext))
        ops.append('const uint32_t i = pick(0, %d); %s::V v = %s::any(); %s m.mutable_%s(i) = t; %s' % (f.cap() - 1, K, K, elem(f, 'v'), n, ext))
        ops.append('const uint32_t i = %d; %s::V v = %s::any(); %s m.set_%s(i, static_cast<%s&&>(t)); %s' % (f.cap() - 1, K, K, elem(f, 'v'), n, f.eptype(), ext))
        # an index beyond the end stands for the last element
        ops.append('const uint32_t i = %d; %s::V v = %s::any(); %s m.set_%s(ep_any_bool() ? 256U : 65536U, t); %s' % (f.cap() - 1, K, K, elem(f, 'v'), n, ext))
        ops.append('const uint32_t i = %d; %s::V v = %s::any(); %s m.mutable_%s(ep_any_bool() ? 256U : 65536U) = t; %s' % (f.cap() - 1, K, K, elem(f, 'v'), n, ext))
        ops.append('m.mutable_%s().clear(); g.%s = %s();' % (n, n, f.V()))
        ops.append('G_%s h; K_%s::any_%s(h); %s x; K_%s::set_%s(x, h); m.set_%s(x.get_%s()); g.%s = h.%s;' % (I, I, n, m.cpp(), I, n, n, n, n, n))
        ops.append('if(0 < g.%s.n) { const uint32_t i = pick(0, g.%s.n - 1); %s::eq(g.%s.v[i], m.%s(i)%s, %s); }' % (n, n, K, n, n, '.get()' if f.scalar() or f.enum() else '', w))
        ops.append('ep_check(&m.get_%s() == &m.%s(), "C22: the two getters are the same");' % (n, n))
    elif f.scalar() or f.enum():
        ops.append('const %s::V v = %s::any(); m.set_%s(v); %sg.%s = v;' % (K, K, n, sel, n))
        ops.append('%s::V v = %s::any(); m.set_%s(static_cast<%s::V&&>(v)); %sg.%s = v;' % (K, K, n, K, sel, n))
        if f.scalar() and not f.oneof:
            ops.append('const %s::V v = %s::any(); m.mutable_%s() = v; %sg.%s = v;' % (K, K, n, sel, n))
            ops.append('ep_check(same_bits<%s::V>(m.mutable_%s(), g.%s), "C16 C18: a mutable reference shows the value"); %s' % (K, n, n, sel))
        ops.append(('if(%d == g.which_%s) ' % (f.num, f.oneof) if f.oneof else '') + '{ ep_check(same_bits<%s::V>(m.%s(), g.%s), "C22: the two getters are the same"); }' % (K, n, n))
    else:
        ops.append('%s::V v = %s::any(); %s m.set_%s(t); %sg.%s = v;' % (K, K, elem(f, 'v'), n, sel, n))
        ops.append('%s%s %s::eq(g.%s, m.mutable_%s(), %s);' % (fresh, sel, K, n, n, w))
        ops.append('ep_check(%sm.get_%s()%s == %sm.%s(), "C22: the two getters are the same");' % (('', n, '.get_const()', '', n) if f.text() else ('&', n, '', '&', n)))
        if f.text():
            ops.append('%s::V v = %s::any(); %s::assign(m.mutable_%s(), v); %sg.%s = v;' % (K, K, K, n, sel, n))
        else:
            ops.append('%s::V v = %s::any(); %s m.mutable_%s() = t; %sg.%s = v;' % (K, K, elem(f, 'v'), n, sel, n))
            ops.append('%s::V v = %s::any(); %s m.set_%s(static_cast<%s&&>(t)); %sg.%s = v;' % (K, K, elem(f, 'v'), n, f.eptype(), sel, n))
    if f.oneof:
        ops.append('m.clear_%s(); if(%d == g.which_%s) { g.which_%s = 0; }' % (n, f.num, f.oneof, f.oneof))
        # select again after clearing: nothing of the earlier value may show
        if not (f.scalar() or f.enum()):
            ops.append('m.clear_%s(); %s::eq(%s::def(), m.mutable_%s(), %s); %sg.%s = %s::def();' % (n, K, K, n, w, sel, n, K)
                       if False else 'if(%d == g.which_%s) { m.clear_%s(); %s::eq(%s::def(), m.mutable_%s(), %s); g.%s = %s::def(); }' % (f.num, f.oneof, n, K, K, n, w, n, K))
    else:
        ops.append('m.clear_%s(); g.%s = %s;%s' % (n, n, f.V() + '()' if f.rep() else K + '::def()', ' g.has_%s = false;' % n if f.opt() else ''))
    o = ['ENTRY api_%s_%s()\n{\n  using K = K_%s; K::V g = K::base(); K::M m; K::assign(m, g);' % (I, n, I)]
    o.append('  switch(ep_any_range(0, %d))\n  {' % (len(ops) - 1))
    for i, op in enumerate(ops):
        o.append('    %s { %s break; }' % ('case %d:' % i if i < len(ops) - 1 else 'default:', op))
    o.append('  }\n  K::eq(g, m, %s);\n}' % w)
    return '\n'.join(o)


def fixed_value(f):
    n = f.name
    x = 'p.%s' % n
    o = ''
    if f.rep():
        o = 'p.%s.n = 1; ' % n
        x = 'p.%s.v[0]' % n
    if f.scalar() or f.enum():
        o += '%s = static_cast<%s::V>(1);' % (x, f.K())
    elif f.text():
        o += '%s = Txt(ep_new_array(1), 1);' % x
    return o


def g_entries(m, pairs=True):
    I = m.id(); o = []
    fs = m.all()
    head = 'using K = K_%s; ' % I
    mk = head + 'K::V g = K::any(); K::M m; K::assign(m, g); '
    o.append('ENTRY ser_%s()\n{\n  %s\n  K::eq(g, m, %s);\n  Out out(4096);\n  const Error e = m.serialize(out);\n'
             '  ep_check(Error::NO_ERRORS == e, "C08 C10: serializing into a buffer with space succeeds");\n'
             '  Expect x(out, "C08: the bytes written are the encoding of the schema"); K::enc(x, g);\n'
             '  ep_check(x.pos == out.n, "C08: nothing else is written");\n'
             '  ep_check(out.n == m.serialized_size(), "C13: the size announced is the size written");\n'
             '  K::eq(g, m, %s);\n}' % (I, mk, W('C18', 'C16', 'C17', 'after setting every field'), W('C14', 'C14', 'C14', 'after serializing')))
    if not m.large(): o.append('ENTRY tight_%s()\n{\n  %s\n  const uint32_t size = K::size(g); const uint32_t cap = ep_any_range(0, 4096); Out out(cap);\n'
             '  const Error e = m.serialize(out);\n  if(size <= cap) { ep_check((Error::NO_ERRORS == e) && (size == out.n), "C08 C10 C13: serializing into a buffer with space succeeds"); }\n'
             '  else { ep_check(Error::BUFFER_FULL == e, "C10: a buffer that is too small is reported"); }\n'
             '  K::eq(g, m, %s);\n}' % (I, mk, W('C14', 'C14', 'C14', 'after a failed serialization')))
    if not m.large(): o.append('ENTRY flaky_%s()\n{\n  %s\n  Flaky out; const Error e = m.serialize(out);\n'
             '  if(out.refused) { ep_check(Error::NO_ERRORS != e, "C10: a refused write is reported"); }\n'
             '  else { ep_check(Error::NO_ERRORS == e, "C10: no error without a refused write"); }\n}' % (I, mk))
    cw = W('C18', 'C16 C18', 'C17 C18', 'of a copy'); ow = W('C18', 'C16 C18', 'C17 C18', 'of the original after copying')
    two = mk + 'K::V h = K::base(); K::M k; K::assign(k, h); '
    end = 'K::eq(g, k, %s); K::eq(g, m, %s);' % (cw, ow)
    o.append('ENTRY cpy_ctor_%s() { %s K::M k(m); %s }' % (I, mk, end))
    o.append('ENTRY cpy_move_%s() { %s K::M k(static_cast<K::M&&>(m)); K::eq(g, k, %s); }' % (I, mk, cw))
    o.append('ENTRY cpy_assign_%s() { %s k = m; %s }' % (I, two, end))
    o.append('ENTRY cpy_moveassign_%s() { %s k = static_cast<K::M&&>(m); K::eq(g, k, %s); }' % (I, two, cw))
    o.append('ENTRY cpy_self_%s() { %s K::M& r = m; m = r; K::eq(g, m, %s); }' % (I, mk, W('C18', 'C16 C18', 'C17 C18', 'after self assignment')))
    dw = W('C18', 'C16 C18', 'C17 C18', 'after clear')
    o.append('ENTRY cpy_clear_%s() { %s m.clear(); g = K::V(); K::eq(g, m, %s); ep_check(0 == m.serialized_size(), "C08 C13 C18: a cleared message has no content"); }' % (I, mk, dw))
    o.append('ENTRY cpy_new_%s() { %s K::V g; K::M m; K::eq(g, m, %s); ep_check(0 == m.serialized_size(), "C08 C13 C18: a new message has no content"); }' % (I, head, W('C18', 'C16 C18', 'C17 C18', 'of a new message')))
    if m.large():
        for f in fs: o.append(g_api(m, f))
    pw = W('C09', 'C09 C16', 'C09 C17', 'after parsing')
    fin = ('const bool fits = %s; In in(out.data, out.n); const Error e = m.deserialize(in);\n'
           '  if(fits) { ep_check(Error::NO_ERRORS == e, "C09: a complete message is accepted"); ep_check(in.n == in.pos, "C09: the whole message is consumed"); K::eq(g, m, ' + pw + '); }\n'
           '  else { ep_check(Error::ARRAY_FULL == e, "C09 C11: elements that do not fit are reported"); }')
    o.append('ENTRY parse_%s()\n{\n  %sK::V p = K::any(); Out out(4096); Put s(out); K::enc(s, p); K::V g; K::M m;\n  %s\n}' % (I, head, fin % 'K::merge(g, p)'))
    if m.large():
        return '\n'.join(o)
    if len(fs) <= 3:
        o.append('ENTRY merge_%s()\n{\n  %s K::V p = K::any(); Out out(4096); Put s(out); K::enc(s, p);\n  %s\n}' % (I, mk, fin % 'K::merge(g, p)'))
    o.append('ENTRY round_%s()\n{\n  %s Out out(4096); const Error w = m.serialize(out); ep_check(Error::NO_ERRORS == w, "C08 C10: serializing into a buffer with space succeeds");\n'
             '  K::M k; In in(out.data, out.n); const Error e = k.deserialize(in); ep_check(Error::NO_ERRORS == e, "C08 C09: a message written is accepted");\n'
             '  K::eq(g, k, %s);\n}' % (I, mk, W('C08 C09', 'C09 C16', 'C09 C17', 'after writing and parsing')))
    o.append('ENTRY cut_%s()\n{\n  %s Out out(4096); Put s(out); K::enc(s, g); ep_assume(0 < out.n); const uint32_t k = ep_any_range(0, out.n - 1);\n'
             '  Cut c(k); K::enc(c, g); K::M t; In in(out.data, k); const Error e = t.deserialize(in);\n'
             '  if(c.intag) { ep_check(Error::NO_ERRORS != e, "C11: a message that ends inside a tag is reported"); }\n'
             '  else if(!c.boundary) { ep_check(Error::NO_ERRORS != e, "C11: a message that ends inside a field is reported"); }\n'
             '  else { ep_check((Error::NO_ERRORS == e) && (k == in.pos), "C09: a message that ends after a field is accepted"); }\n}' % (I, mk))
    for f in fs:
        o.append(g_api(m, f))
        o.append('ENTRY field_%s_%s()\n{\n  %sK::V p; K::any_%s(p); Out out(4096); Put s(out); K::put_%s(s, p);\n  %s\n}' % (I, f.name, mk, f.name, f.name, fin % ('K::merge_%s(g, p)' % f.name)))
        o.append('ENTRY type_%s_%s()\n{\n  %sOut out(64); Put s(out); const uint32_t wt = pick(0, 7); ep_assume(%d != wt); put_tag(s, %d, wt);\n'
                 '  const uint32_t n = ep_any_range(0, 12); uint8_t* a = ep_any_array(n); s.bytes(a, n); In in(out.data, out.n); const Error e = m.deserialize(in);\n'
                 '  ep_check(Error::INVALID_WIRETYPE == e, "C09 C11: a field with another wire type is refused");\n}' % (I, f.name, mk, f.wire(), f.num))
    if pairs:
        for f in fs:
            for h in fs:
                o.append('ENTRY pair_%s_%s_%s()\n{\n  %sK::V p; K::any_%s(p); K::V q; K::any_%s(q); Out out(4096); Put s(out); K::put_%s(s, p); K::put_%s(s, q); K::V g; K::M m;\n  %s\n}'
                         % (I, f.name, h.name, head, f.name, h.name, f.name, h.name, fin % ('K::merge_%s(g, p) && K::merge_%s(g, q)' % (f.name, h.name))))
    # unknown fields
    if fs:
        f = fs[0]
        known = ' && '.join('(%dU != u)' % x.num for x in fs)
        for wt, pay in ((0, 'const uint64_t v = %s; put_varint(s, v);' % ('ep_any_u64()')), (1, 's.bytes(ep_any_array(8), 8);'), (5, 's.bytes(ep_any_array(4), 4);'),
                        (2, 'const uint32_t n = ep_any_range(0, 200); put_varint(s, n); s.bytes(ep_any_array(n), n);')):
            o.append('ENTRY unk%d_%s()\n{\n  %sconst uint32_t u = ep_any_range(1, UMAX); ep_assume(%s); Out out(4096); Put s(out); put_tag(s, u, %d); %s\n'
                     '  K::V p; %s K::put_%s(s, p);\n  %s\n}' % (wt, I, head + 'K::V g; K::M m;', known, wt, pay, fixed_value(f), f.name, fin % ('K::merge_%s(g, p)' % f.name)))
        # numbers below 16: the tag is one byte
        o.append('ENTRY unkcut_%s()\n{\n  %sconst uint32_t u = ep_any_range(1, 15); ep_assume(%s); K::V g; K::M m; Out out(64); Put s(out); const uint32_t wt = ep_any_bool() ? 1 : 5; put_tag(s, u, wt);\n'
                 '  const uint32_t n = ep_any_range(0, (1 == wt) ? 7 : 3); s.bytes(ep_any_array(n), n); In in(out.data, out.n); const Error e = m.deserialize(in);\n'
                 '  ep_check(Error::NO_ERRORS != e, "C11: an unknown field cut short is reported");\n}' % (I, head, known))
        o.append('ENTRY unkcut0_%s()\n{\n  %sconst uint32_t u = ep_any_range(1, 15); ep_assume(%s); K::V g; K::M m; Out out(64); Put s(out); put_tag(s, u, 0);\n'
                 '  const uint32_t n = pick(0, 9); for(uint32_t i = 0; i < n; i = i + 1) { s.byte(static_cast<uint8_t>(0x80U | ep_any_u8())); } In in(out.data, out.n); const Error e = m.deserialize(in);\n'
                 '  ep_check(Error::NO_ERRORS != e, "C11: an unknown field cut short is reported");\n}' % (I, head, known))
        o.append('ENTRY unkcut2_%s()\n{\n  %sconst uint32_t u = ep_any_range(1, 15); ep_assume(%s); K::V g; K::M m; Out out(256); Put s(out); put_tag(s, u, 2);\n'
                 '  const uint32_t n = ep_any_range(2, 100); put_varint(s, n); if(ep_any_bool()) { s.byte(ep_any_u8()); } In in(out.data, out.n); const Error e = m.deserialize(in);\n'
                 '  ep_check(Error::NO_ERRORS != e, "C11: the content of an unknown length delimited field cut short is reported");\n}' % (I, head, known))
        o.append('ENTRY unkcutlen_%s()\n{\n  %sconst uint32_t u = ep_any_range(1, 15); ep_assume(%s); K::V g; K::M m; Out out(64); Put s(out); put_tag(s, u, 2);\n'
                 '  const uint32_t n = pick(0, 4); for(uint32_t i = 0; i < n; i = i + 1) { s.byte(static_cast<uint8_t>(0x80U | ep_any_u8())); } In in(out.data, out.n); const Error e = m.deserialize(in);\n'
                 '  ep_check(Error::NO_ERRORS != e, "C11: the length of an unknown field cut short is reported");\n}' % (I, head, known))
        o.append('ENTRY unkbad_%s()\n{\n  %sconst uint32_t u = ep_any_range(1, UMAX); ep_assume(%s); Out out(64); Put s(out); put_tag(s, u, pick(3, 4));\n'
                 '  In in(out.data, out.n); const Error e = m.deserialize(in); ep_check(Error::INVALID_WIRETYPE == e, "C09 C11: a group is refused");\n}' % (I, mk, known))
    o.append('ENTRY zero_%s()\n{\n  %sOut out(64); Put s(out); put_tag(s, 0, pick(0, 5)); const uint32_t n = ep_any_range(0, 12); s.bytes(ep_any_array(n), n);\n'
             '  In in(out.data, out.n); const Error e = m.deserialize(in); ep_check(Error::INVALID_FIELD_ID == e, "C09 C11: field number zero is refused");\n}' % (I, mk))
    o.append('ENTRY overtag_%s()\n{\n  %sOut out(64); Put s(out); for(uint32_t i = 0; i < 5; i = i + 1) { s.byte(static_cast<uint8_t>(0x80U | ep_any_u8())); } const uint32_t n = ep_any_range(0, 12); s.bytes(ep_any_array(n), n);\n'
             '  In in(out.data, out.n); const Error e = m.deserialize(in); ep_check(Error::OVERLONG_VARINT == e, "C11: an overlong tag is reported");\n}' % (I, mk))
    # hostile data
    o.append('ENTRY hostile_%s()\n{\n  %sK::M m; Out out(64); Put s(out); const uint32_t n = pick(0, 3); for(uint32_t i = 0; i < n; i = i + 1) { s.byte(ep_any_u8()); }\n'
             '  Wild in(out.data, out.n); (void)m.deserialize(in);\n}' % (I, head))
    for k in (4, 5, 6):
        o.append('ENTRY wild%d_%s()\n{\n  %sK::M m; Out out(64); Put s(out); for(uint32_t i = 0; i < %d; i = i + 1) { s.byte(ep_any_u8()); }\n'
                 '  Wild in(out.data, out.n); (void)m.deserialize(in);\n}' % (k, I, head, k))
    for f in fs:
        o.append('ENTRY hostile_%s_%s()\n{\n  %sOut out(64); Put s(out); put_tag(s, %d, %d); const uint32_t n = pick(0, 3); for(uint32_t i = 0; i < n; i = i + 1) { s.byte(ep_any_u8()); }\n'
                 '  Wild in(out.data, out.n); (void)m.deserialize(in);\n}' % (I, f.name, mk, f.num, f.wire()))
    # any data against the reference decoder
    cmp = ('Src r{out.data, out.n, 0}; K::V g; const int x = K::dec(r, g); In in(out.data, out.n); const Error e = m.deserialize(in);\n'
           '  if(REJECT == x) { ep_check(Error::NO_ERRORS != e, "C11: malformed data is reported"); }\n'
           '  else if(ACCEPT == x) { ep_check((Error::NO_ERRORS == e) && (in.n == in.pos), "C09: well-formed data is accepted"); K::eq(g, m, %s); }' % W('C09', 'C09 C16', 'C09 C17', 'after parsing any data'))
    for k in range(1, 7):
        o.append('ENTRY ref%d_%s()\n{\n  %sK::M m; Out out(64); Put s(out); for(uint32_t i = 0; i < %d; i = i + 1) { s.byte(ep_any_u8()); }\n  %s\n}' % (k, I, head, k, cmp))
    for f in fs:
        for k in range(1, 7):
            o.append('ENTRY reff%d_%s_%s()\n{\n  %sK::M m; Out out(64); Put s(out); put_tag(s, %d, %d); for(uint32_t i = 0; i < %d; i = i + 1) { s.byte(ep_any_u8()); }\n  %s\n}' % (k, I, f.name, head, f.num, f.wire(), k, cmp))
    # names and numbers
    o.append('ENTRY names_%s()\n{\n  %s' % (I, head))
    o.append('  ep_check(0U == static_cast<uint32_t>(K::M::FieldNumber::NOT_SET), "C22: NOT_SET is zero");')
    for f in fs:
        u = f.name.upper()
        o.append('  ep_check(%dU == static_cast<uint32_t>(K::M::FieldNumber::%s), "C22: the field number of %s is that of the schema");' % (f.num, u, f.name))
        o.append('  ep_check(same_text(K::M::field_number_to_name(K::M::FieldNumber::%s), "%s"), "C22: the name of the field number of %s");' % (u, f.name, f.name))
    o.append('  ep_check(same_text(K::M::field_number_to_name(K::M::FieldNumber::NOT_SET), "Invalid FieldNumber"), "C22: the name of no field");')
    o.append('}')
    for e in m.enums:
        o.append(g_enum(e))
    return '\n'.join(o).replace('UMAX', '536870911U' if max([f.num for f in fs] + [0]) < 100000 else '1000')


def g_enum(e):
    i = e.cpp().replace('::', '_').replace('<', '_').replace('>', '_').replace(', ', '_')
    o = ['ENTRY enum%s()\n{' % i]
    for n, v in e.values:
        o.append('  ep_check(static_cast<uint32_t>(%dLL) == static_cast<uint32_t>(%s::%s), "C22: the value of enumerator %s is that of the schema");' % (v, e.cpp(), n, n))
    return '\n'.join(o) + '\n}'


def g_text(m):
    """the human readable text (MSG_TO_STRING)"""
    I = m.id()
    return ('ENTRY tostr_%s()\n{\n  using K = K_%s; K::V g = K::any(); K::M m; K::assign(m, g);\n'
            '  const uint32_t cap = ep_any_range(0, 4000); char* const a = reinterpret_cast<char*>(ep_raw_array(cap));\n'
            '  EmbeddedProto::string_view v{a, cap}; const EmbeddedProto::string_view r = m.to_string(v);\n'
            '  ep_check(ep_same_array(r.data + r.size, a + cap) && (r.size <= cap), "C20: what is left of the array is returned");\n'
            '  if(0 < r.size) { ep_check(0 == *r.data, "C20: the text is terminated"); }\n'
            '  else if(0 < cap) { ep_check(0 == a[cap - 1], "C20: a text cut short is terminated"); }\n'
            '  K::eq(g, m, %s);\n}\n'
            'ENTRY say_%s()\n{\n  ep_tokens(); using K = K_%s; K::V g = K::any(); K::few(g); K::M m; K::assign(m, g);\n'
            '  char* const a = reinterpret_cast<char*>(ep_raw_array(4000)); EmbeddedProto::string_view v{a, 4000};\n'
            '  const EmbeddedProto::string_view r = m.to_string(v);\n'
            '  Text t = {a, 0, 4000 - r.size, "C23: the text names every field in order, each with its value"}; K::say(t, g); t.white();\n'
            '  ep_check(t.n == t.pos, "C23: the text holds nothing else");\n}\n'
            'ENTRY crop_%s()\n{\n  ep_tokens(); using K = K_%s; K::V g = K::any(); K::few(g); K::M m; K::assign(m, g);\n'
            '  char* const a = reinterpret_cast<char*>(ep_new_array(4000)); EmbeddedProto::string_view v{a, 4000};\n'
            '  const uint32_t n = 4000 - m.to_string(v).size; const uint32_t cap = ep_any_range(1, 4000);\n'
            '  char* const b = reinterpret_cast<char*>(ep_new_array(cap)); EmbeddedProto::string_view w{b, cap}; m.to_string(w);\n'
            '  for(uint32_t i = 0; i < n; i = i + 1) { if(i < cap - 1) { ep_check(a[i] == b[i], "C20: a text cut short is the beginning of the whole text"); } }\n'
            '  ep_check(0 == b[(n < cap) ? n : cap - 1], "C20: the text is terminated");\n}' % (I, I, W('C20', 'C20', 'C20', 'after to_string'), I, I, I, I))


def emit(files, d):
    """write the protos and one harness per file with messages; returns (protos, {name: harness path})"""
    os.makedirs(d, exist_ok=True)
    for f in files:
        open(os.path.join(d, f.name + '.proto'), 'w').write(f.proto())
    hs = {}
    for f in files:
        o = ['#include "msg.h"', '#include <%s.h>' % f.name]
        deps = [x for i in f.imports for x in files if x.name == i]
        for x in deps:
            for m in x.msgs(): o.append(g_model(m))
        for m in f.msgs(): o.append(g_model(m))
        for e in f.enums():
            if not e.outer: o.append(g_enum(e))
        o.append('#ifdef MSG_TO_STRING')
        for m in f.msgs():
            if not m.large(): o.append(g_text(m))
        o.append('#else')
        for m in f.msgs(): o.append(g_entries(m, len(m.all()) <= 5))
        o.append('#endif')
        p = os.path.join(d, 'h_' + f.name + '.cpp')
        open(p, 'w').write('\n'.join(o) + '\n')
        hs[f.name] = p
    return [f.name + '.proto' for f in files], hs
