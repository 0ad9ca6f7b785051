#!/usr/bin/env python3
"""Generates a field-by-field visitor for every AST class from the public headers of the current tree.

The result is a model of the AST independent of the repository's own clone / operator== / serialize:
which properties a class has is read from its accessors, nothing else.
"""
import os, re, sys

def strip(src):
    src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
    return re.sub(r'//[^\n]*', '', src)

def body_of(src, i):
    d = 0
    for j in range(i, len(src)):
        if src[j] == '{': d += 1
        elif src[j] == '}':
            d -= 1
            if d == 0: return src[i + 1:j], j
    raise SystemExit('unbalanced braces')

def public_part(body):
    out, access = [], 'private'
    parts = re.split(r'\b(public|protected|private)\s*:(?!:)', body)
    for k, p in enumerate(parts):
        if k % 2 == 1: access = p
        elif access == 'public': out.append(p)
    return '\n'.join(out)

def split_args(s):
    """top-level commas"""
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<({[': d += 1
        elif ch in '>)}]': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    return [x.strip() for x in out + [cur] if x.strip()]

def constructors(name, flat, props):
    """ constructors whose parameters are all named as properties: [(whether they cover every property, [(kind, property)])] """
    out = []
    for m in re.finditer(r'(?<![\w:~])%s\s*\(' % re.escape(name), flat):
        d, j = 0, m.end() - 1
        while j < len(flat):
            if flat[j] == '(': d += 1
            elif flat[j] == ')':
                d -= 1
                if d == 0: break
            j += 1
        args = split_args(flat[m.end():j])
        if re.search(r'template\s*<[^;()]*>\s*(?:explicit|constexpr|inline|\s)*$', flat[:m.start()]): continue
        if not args or 'clone_tag_t' in flat[m.end():j]: continue
        plan = []
        for a in args:
            a = a.split('=')[0].strip()
            p = re.match(r'(.*?)(\w+)$', a, re.S)
            n = p.group(2) if p else ''
            if n == 'kind' and n not in props: n = 'identifier_kind'
            if not p or not p.group(1).strip() or n not in props: plan = None; break
            t = p.group(1)
            kind = 'list' if 'rvalue_list' in t else 'pointer' if 'rvalue_ptr' in t else 'moved' if '&&' in t else 'value'
            plan.append((kind, n))
        if plan:
            out.append((set(props) <= set(n for _, n in plan), plan))
    return out

def main(repo, out):
    root = os.path.join(repo, 'include', 'mizugaki', 'ast')
    classes, enums, headers = [], [], []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if not f.endswith('.h'): continue
            p = os.path.join(d, f)
            headers.append(os.path.relpath(p, os.path.join(repo, 'include')))
            src = strip(open(p, encoding='utf-8').read())
            m = re.search(r'namespace\s+([\w:]+)\s*\{', src)
            if not m: continue
            ns = m.group(1)
            for e in re.finditer(r'\benum\s+class\s+(\w+)\s*(?::\s*[\w:]+\s*)?\{', src):
                b, _ = body_of(src, e.end() - 1)
                names = [x.split('=')[0].strip() for x in b.split(',')]
                enums.append((ns + '::' + e.group(1), [n for n in names if n]))
            for c in re.finditer(r'(template\s*<[^{};]*>\s*)?\bclass\s+(\w+)\s*(?:final\s*)?(:\s*public\s+[\w:]+\s*)?\{', src):
                if c.group(1): continue
                b, _ = body_of(src, c.end() - 1)
                pub = public_part(b)
                # drop nested bodies
                flat, depth = [], 0
                for ch in pub:
                    if ch == '{': depth += 1
                    elif ch == '}': depth -= 1; flat.append(';') if depth == 0 else None
                    elif depth == 0: flat.append(ch)
                flat = ''.join(flat)
                props = []
                for a in re.finditer(r'\[\[nodiscard\]\]\s*(?:constexpr\s+)?([\w:<>,\s]+?)\s*&\s+(\w+)\(\)\s*(?:noexcept\s*)?;', flat):
                    t = a.group(1).strip()
                    if t.startswith('virtual') or t.startswith('static'): continue
                    if a.group(2) not in props: props.append(a.group(2))
                node = re.search(r'clone\(\)\s*const\s*&', flat) is not None and not re.search(r'clone\(\)\s*const\s*&\s*(?:override\s*)?=\s*0', flat)
                classes.append((ns + '::' + c.group(2), props, node, (c.group(3) or ''), flat))
    skip = { 'mizugaki::ast::element', 'mizugaki::ast::node' }
    with open(out, 'w') as o:
        o.write('// generated by tools/reflect_gen.py\n#pragma once\n')
        for h in headers: o.write('#include <%s>\n' % h)
        o.write('namespace reflect {\n')
        for k in ('value', 'moved', 'pointer', 'list'):
            o.write('template<class V> struct by_%s { V& v; };\ntemplate<class V> by_%s<V> %s_of(V& v) { return { v }; }\n' % (k, k, k))
        for n, props, node, base, flat in classes:
            if n in skip: continue
            if not node and 'element' not in base and n != 'mizugaki::ast::compilation_unit': continue
            o.write('template<class F> void each(%s& x, F&& f) { (void) x; (void) f;\n' % n)
            if n != 'mizugaki::ast::compilation_unit' and 'region' not in props: props = props + ['region']
            for p in props: o.write('    f("%s", x.%s());\n' % (p, p))
            o.write('}\n')
            if n == 'mizugaki::ast::compilation_unit': continue
            o.write('template<class B> void build(%s& x, B&& b) { (void) x; (void) b;\n' % n)
            for full, plan in constructors(n.split('::')[-1], flat, props):
                o.write('    b.constructor(%s, %s);\n' % ('true' if full else 'false', ', '.join('%s_of(x.%s())' % x for x in plan)))
            o.write('}\n')
        o.write('#define REFLECT_NODES(M)')
        for n, props, node, base, flat in classes:
            if node and n not in skip: o.write(' \\\n    M(%s)' % n)
        o.write('\n#define REFLECT_ENUMS(M)')
        for n, names in enums:
            o.write(' \\\n    M(%s, %s)' % (n, ', '.join(n + '::' + x for x in names)))
        o.write('\n} // namespace reflect\n')

if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
