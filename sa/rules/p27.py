"""Every construct of the package can succeed: names, imports, attributes, argument lists, interfaces."""
EXPLANATION = '''
Two analyses over every module. The first replays the module-level statements in import order, once per module as the first one
imported, and checks that each name, attribute, annotation and decorator they evaluate is bound by then. The second walks every
function body with the set of names that may be assigned, and with the classes that receivers certainly have (constructor calls, self,
annotated parameters, attributes and results), and checks names, attributes, argument lists, instantiation, unpacked results, format
strings and function-level imports. Whatever is not known is assumed to succeed, so each alarm is a construct that raises when executed.
'''
LEVEL = 'other'


def check(ctx):
    from ..resolve import Imports, Certain, Classes, Returns
    ctx.rule('import', 'importing any module of the package first binds every name its module-level code evaluates')
    ctx.rule('body', 'no name, attribute, call, format string or import of a function body is certain to raise')
    ctx.rule('interface', 'a class that implements an abstract one is complete and takes the calls its base declares')
    ctx.rule('unpack', 'every display a callee returns has as many values as the assignment unpacks')

    def report(rule, errs, all_keys):
        bad = {}
        for e in errs:
            bad.setdefault(e[0], []).append(e)
        for q, loc in all_keys:
            es = bad.pop(q, None)
            if es is None:
                ctx.ob(rule, q, True, '', loc)
            else:
                bad[q] = es
        for q, es in sorted(bad.items()):
            for k in sorted({e[1] for e in es}):
                e = min((e for e in es if e[1] == k), key=lambda e: e[4])
                ctx.ob(rule, '%s: %s' % (q, k), False, e[2], '%s:%d' % (e[3], e[4]))

    with ctx.guard('import', 'package', seconds=300):
        i = Imports(ctx.p)
        errs = [(rel, key, '%s (when %s is imported first)' % (m, entry), rel, line) for (rel, key), (m, line, entry) in i.run().items()]
        report('import', errs, sorted((m.rel, m.rel) for m in ctx.p.modules.values()))
        ctx.notes.append('%d names, attributes and imports evaluated at import time, over %d entry modules' % (i.checked, len(i.trees)))
    with ctx.guard('body', 'package', seconds=300):
        c = Certain(ctx.p)
        errs = c.run()
        report('body', errs, sorted({(fi.qual, fi.module.rel) for fi, _ in c.done}))
        ctx.analysed(*{fi.qual for fi, _ in c.done})
        ctx.notes.append('function bodies: ' + ', '.join('%d %s' % (v, k) for k, v in c.counts.items() if v))
        with ctx.guard('interface', 'package', seconds=300):
            k = Classes(c)
            report('interface', k.run(), sorted({(x.qual, x.module.rel) for x in c.all_classes if x.has_abc_meta() and not x.nested_abstract()}))
            ctx.notes.append('%d concrete classes, %d implemented abstract methods' % (k.done, k.calls))
        with ctx.guard('unpack', 'package', seconds=300):
            r = Returns(c)
            errs = r.run()
            report('unpack', errs, sorted({(s, '') for s in r.seen}))
            ctx.notes.append('%d unpacking calls' % r.sites)
        ctx.require('function bodies', c.counts['functions'], 300)
        ctx.require('unpacking calls', r.sites, 10)
