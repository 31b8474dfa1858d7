R"PY(
import dynareadout as dro
import gc

class Bad(Exception):
    pass

def encode(e):
    return str(e).encode('utf-8', 'surrogateescape')

def need(ok, what):
    if not ok:
        raise Bad(what)

# the bytes of a String or SizedString
def tx(s):
    b = ''.join(s[i] for i in range(len(s))).encode('latin1')
    try:
        t = b.decode()
    except UnicodeDecodeError:
        return b
    need(str(s) == t, 'str() gives %r for %r' % (str(s), t))
    need(repr(s) == "'" + t + "'", 'repr() gives %r for %r' % (repr(s), t))
    need(s == t, '== with its own contents %r' % t)
    need(not (s == t + 'x'), '== with more contents %r' % t)
    need(not t or not (s == t[:-1]), '== with less contents %r' % t)
    bounds(s)
    return b

def bounds(a):
    for k in (len(a), len(a) + 1, 2**63):
        try:
            a[k]
        except IndexError:
            continue
        raise Bad('element %d of %d can be accessed' % (k, len(a)))

def nums(a):
    v = [a[i] for i in range(len(a))]
    bounds(a)
    return v

def check_list(a, v):
    if any(x != x for x in v):
        return
    need(a == v, 'not equal to the list of its values')
    need(a == tuple(v), 'not equal to the tuple of its values')
    need(not (a == v + [0]), 'equal to a longer list')
    if v:
        need(not (a == v[:-1]), 'equal to a shorter list')
        w = list(v)
        w[len(v) // 2] = 1 if w[len(v) // 2] != 1 else 2
        need(not (a == w), 'equal to a list with another value')

# ------------------------------------------------------------------ binout
def b_open(path):
    return dro.Binout(path)

def b_read(b, path, default):
    r = b.read() if default else b.read(path)
    if isinstance(r, list):
        if r and isinstance(r[0], dro.String):
            return ('children', '', [tx(s) for s in r], [])
        if not r:
            return ('empty', '', [], [])
        return ('timed', type(r[0]).__name__, [], [nums(a) for a in r])
    v = nums(r)
    if type(r).__name__[-9:] == 'Int8Array' or type(r).__name__ == 'Uint8Array':
        check_text(r, v)
    else:
        check_list(r, v)
    return ('array', type(r).__name__, [], [v])

def check_text(a, v):
    b = bytes(x & 255 for x in v)
    try:
        t = b.decode()
    except UnicodeDecodeError:
        return
    need(str(a) == t, 'str() gives %r for %r' % (str(a), t))
    need(a == t, '== with its own contents %r' % t)
    need(not (a == t + 'x'), '== with more contents %r' % t)

def b_type(b, path):
    return int(b.get_type_id(path))

def b_exists(b, path):
    return 1 if b.variable_exists(path) else 0

def b_steps(b, path):
    return b.get_num_timesteps(path)

# ------------------------------------------------------------------ d3plot
def d_open(path):
    return dro.D3plot(path)

def states(p):
    return p.num_time_steps()

def tensor(d, t):
    need(t.yx == t.xy or t.xy != t.xy, 'yx')
    need(t.zy == t.yz or t.yz != t.yz, 'zy')
    need(t.xz == t.zx or t.zx != t.zx, 'xz')
    d += [t.x, t.y, t.z, t.xy, t.yz, t.zx]

def same(a, b):
    return a == b or (a != a and b != b)

def surface(d, s, h):
    tensor(d, s.stress)
    need(same(s.effective_plastic_strain, s.material_dependent_value), 'material dependent value')
    need(same(s.sigma.x, s.stress.x) and same(s.sigma.yz, s.stress.yz), 'sigma')
    d.append(s.effective_plastic_strain)
    d += nums(h)

def shell(u, d, e, drop):
    hm, hi, ho = (e.get_mid_history_variables(), e.get_inner_history_variables(),
                  e.get_outer_history_variables())
    nh = len(hm)
    ips = e.get_add_ips()
    n = len(ips)
    u += [nh, n]
    mid, inner, outer, eps1, eps2 = e.mid, e.inner, e.outer, e.inner_strain, e.outer_strain
    need(same(eps1.xy, e.inner_epsilon.xy) and same(eps2.z, e.outer_epsilon.z), 'epsilon')
    ih = [e.get_add_ip_history_variables(k) for k in range(n)]
    for k in (n, 255):
        if k < n:
            continue
        try:
            e.get_add_ip_history_variables(k)
        except RuntimeError as x:
            need(str(x) != '', 'no message')
        else:
            raise Bad('no exception for an invalid integration point')
    m, mh = e.get_mean(), e.get_mean_history_variables()
    ip = [ips[k] for k in range(n)]
    if drop:
        del e, ips
        gc.collect(0)
    surface(d, mid, hm)
    surface(d, inner, hi)
    surface(d, outer, ho)
    for k in range(n):
        surface(d, ip[k], ih[k])
    tensor(d, eps1)
    tensor(d, eps2)
    return m, mh

def state(kind):
    def fn(p, st, mask, drop):
        a = getattr(p, 'read_' + kind + '_state')(st)
        n = len(a)
        bounds(a)
        es = [a[i] for i in range(n)]
        if drop:
            del a
            gc.collect(0)
        u, d, means = [n], [], []
        for e in es:
            if kind == 'solids':
                tensor(d, e.stress)
                need(same(e.effective_plastic_strain, e.material_dependent_value), 'material dependent value')
                need(same(e.epsilon.y, e.strain.y) and same(e.sigma.zx, e.stress.zx), 'sigma')
                d.append(e.effective_plastic_strain)
                tensor(d, e.strain)
            elif kind == 'beams':
                ips = e.get_integration_points()
                av, mi, ma = e.get_history_average(), e.get_history_min(), e.get_history_max()
                hs = [e.get_history_variables(k) for k in range(len(ips))]
                ip = [ips[k] for k in range(len(ips))]
                bounds(ips)
                if len(ip) < 255:
                    try:
                        e.get_history_variables(len(ip))
                    except RuntimeError as x:
                        need(str(x) != '', 'no message')
                    else:
                        raise Bad('no exception for an invalid integration point')
                u += [len(av), len(ip)]
                d += [e.axial_force, e.s_shear_resultant, e.t_shear_resultant,
                      e.s_bending_moment, e.t_bending_moment, e.torsional_resultant]
                if drop:
                    del ips
                    gc.collect(0)
                for x in ip:
                    d += [x.rs_shear_stress, x.tr_shear_stress, x.axial_stress,
                          x.plastic_strain, x.axial_strain]
                for h in (av, mi, ma):
                    d += nums(h)
                for h in hs:
                    d += nums(h)
            else:
                means.append(shell(u, d, e, drop))
                if kind == 'shells':
                    v = e.element_dependent_variables
                    need(len(v) == 2, 'element dependent variables')
                    d += [e.bending_moment.x, e.bending_moment.y, e.bending_moment.xy,
                          e.shear_resultant.x, e.shear_resultant.y,
                          e.normal_resultant.x, e.normal_resultant.y, e.normal_resultant.xy,
                          e.thickness, v[0], v[1], e.internal_energy]
        if drop:
            es = None
            gc.collect(0)
        for m, h in means:
            tensor(d, m.stress)
            d.append(m.effective_plastic_strain)
            d += nums(h)
        return u, d, []
    return fn

def ids(name):
    def fn(p, st, mask, drop):
        a = getattr(p, name)()
        v = nums(a)
        check_list(a, v)
        return [len(v)] + v, [], []
    return fn

def vec(name):
    def fn(p, st, mask, drop):
        a = getattr(p, name)() if mask == 1 and name == 'read_node_coordinates' and st == 0 else getattr(p, name)(st)
        vs = nums(a)
        d = []
        for v in vs:
            need(len(v) == 3, 'a vector of %d values' % len(v))
            d += v
        return [len(vs), 0], d, []
    return fn

def vecs(name):
    def fn(p, st, mask, drop):
        l = getattr(p, name)()
        need(isinstance(l, list), 'no list')
        d = []
        for a in l:
            need(len(a) == len(l[0]), 'states of different sizes')
            for i in range(len(a)):
                d += a[i]
        return [len(l[0]) if l else 0, len(l)], d, []
    return fn

def con(name):
    def fn(p, st, mask, drop):
        a = getattr(p, name)()
        n = len(a)
        bounds(a)
        es = [a[i] for i in range(n)]
        if drop:
            del a
            gc.collect(0)
        u = []
        if name == 'read_beam_elements':
            u += [e.orientation_node_index for e in es]
        u.append(n)
        for e in es:
            u += list(e.node_indices) + [e.material_index]
        return u, [], []
    return fn

def times(p, st, mask, drop):
    a = p.read_all_time()
    v = nums(a)
    check_list(a, v)
    return [len(v), 0], v, []

def titles(p, st, mask, drop):
    t = p.read_part_titles()
    return [len(t)], [], [tx(s) for s in t]

def run_time(p, st, mask, drop):
    t = p.read_run_time()
    need(t.microsecond == 0, 'microseconds')
    return [int(t.timestamp())], [], []

def put_part(u, p):
    for k in ('solid', 'thick_shell', 'beam', 'shell'):
        i = nums(getattr(p, 'get_%s_elements' % k)())
        x = nums(getattr(p, 'get_%s_element_indices' % k)())
        need(len(i) == len(x), 'indices and ids differ in number')
        u.append(len(i))
        for a, b in zip(i, x):
            u += [a, b]

def part(p, st, mask, drop):
    x = p.read_part(st)
    u = []
    if drop:
        a, b = x.get_shell_elements(), x.get_beam_element_indices()
        c, d = x.get_solid_elements(), x.get_thick_shell_element_indices()
        del x
        gc.collect(0)
        nums(a), nums(b), nums(c), nums(d)
        x = p.read_part(st)
        put_part(u, x)
    else:
        put_part(u, x)
    return u, [], []

def part_by_id(p, st, mask, drop):
    u = []
    put_part(u, p.read_part_by_id(st, p.read_part_ids()) if mask & 1 else p.read_part_by_id(st))
    return u, [], []

def nodes(name):
    def fn(p, st, mask, drop):
        x = p.read_part(st)
        kw = {}
        last = None
        for bit, arg, read in ((1, 'node_ids', 'read_node_ids'), (2, 'solid_ids', 'read_solid_element_ids'),
                               (4, 'beam_ids', 'read_beam_element_ids'), (8, 'shell_ids', 'read_shell_element_ids'),
                               (16, 'thick_shell_ids', 'read_thick_shell_element_ids'),
                               (32, 'solid_cons', 'read_solid_elements'), (64, 'beam_cons', 'read_beam_elements'),
                               (128, 'shell_cons', 'read_shell_elements'),
                               (256, 'thick_shell_cons', 'read_thick_shell_elements')):
            if mask & bit:
                # like the C calls: the error of the last one of them counts
                last = None
                try:
                    v = getattr(p, read)()
                except RuntimeError as e:
                    last = e
                else:
                    if bit != 1 or name == 'get_node_ids':
                        kw[arg] = v
        if last:
            raise last
        r = getattr(x, name)(p, **kw)
        if name == 'get_num_nodes':
            return [r], [], []
        r = nums(r)
        return [len(r)] + r, [], []
    return fn

def part_elements(p, st, mask, drop):
    x = p.read_part(st)
    n = x.get_num_elements()
    v = nums(x.get_all_element_ids())
    return [n, len(v)] + v, [], []

CALLS = {
    'node_ids': ids('read_node_ids'), 'solid_ids': ids('read_solid_element_ids'),
    'beam_ids': ids('read_beam_element_ids'), 'shell_ids': ids('read_shell_element_ids'),
    'tshell_ids': ids('read_thick_shell_element_ids'), 'all_element_ids': ids('read_all_element_ids'),
    'part_ids': ids('read_part_ids'), 'part_titles': titles,
    'title': lambda p, st, mask, drop: ([], [], [tx(p.read_title())]),
    'epoch_run_time': run_time,
    'solid_elements': con('read_solid_elements'), 'tshell_elements': con('read_thick_shell_elements'),
    'beam_elements': con('read_beam_elements'), 'shell_elements': con('read_shell_elements'),
    'coords': vec('read_node_coordinates'), 'velocity': vec('read_node_velocity'),
    'acceleration': vec('read_node_acceleration'),
    'time': lambda p, st, mask, drop: ([], [p.read_time(st)], []),
    'solids_state': state('solids'), 'tshells_state': state('thick_shells'), 'beams_state': state('beams'),
    'shells_state': state('shells'),
    'all_coords': vecs('read_all_node_coordinates'), 'all_velocity': vecs('read_all_node_velocity'),
    'all_acceleration': vecs('read_all_node_acceleration'), 'all_time': times,
    'part': part, 'part_by_id': part_by_id, 'part_node_ids': nodes('get_node_ids'),
    'part_node_indices': nodes('get_node_indices'), 'part_num_nodes': nodes('get_num_nodes'),
    'part_elements': part_elements,
}

def d_call(p, op, st, mask, drop):
    return CALLS[op](p, st, mask, drop)

# ------------------------------------------------------------------ printing
def p_num(x):
    return ('%g' if isinstance(x, float) else '%d') % x

def p_tensor(t):
    return ' X %s Y %s Z %s XY %s YZ %s XZ %s ' % tuple(map(p_num, (t.x, t.y, t.z, t.xy, t.yz, t.xz)))

def p_surface(s):
    return ' Stress ' + p_tensor(s.stress) + ' Effective Plastic Strain ' + p_num(s.effective_plastic_strain)

def p_list(v):
    return ' ' + ' '.join(map(p_num, v)) + ' '

def p_tshell(e):
    return (' Mid ' + p_surface(e.mid) + ' Inner ' + p_surface(e.inner) + ' Outer ' + p_surface(e.outer)
            + ' Inner Strain ' + p_tensor(e.inner_strain) + ' Outer Strain ' + p_tensor(e.outer_strain))

P_BEAM = ('axial_force', 's_shear_resultant', 't_shear_resultant', 's_bending_moment', 't_bending_moment',
          'torsional_resultant')

def p_shell(e):
    b, s, n = e.bending_moment, e.shear_resultant, e.normal_resultant
    return (p_tshell(e) + ' Bending Moment ' + p_list((b.x, b.y, b.xy)) + ' Shear Resultant ' + p_list((s.x, s.y))
            + ' Normal Resultant ' + p_list((n.x, n.y, n.xy)) + ' Thickness ' + p_num(e.thickness)
            + ' Element Dependent Variables ' + p_list(e.element_dependent_variables)
            + ' Internal Energy ' + p_num(e.internal_energy))

def p_con(e):
    o = [e.orientation_node_index] if hasattr(e, 'orientation_node_index') else []
    return p_list(list(e.node_indices) + o + [e.material_index])

PRINT = {
    'solids': lambda e: p_surface(e) + ' Strain ' + p_tensor(e.strain),
    'thick_shells': p_tshell, 'shells': p_shell,
    'beams': lambda e: ' '.join(n.replace('_', ' ') + ' ' + p_num(getattr(e, n)) for n in P_BEAM),
}

def p_parts(kind, e):
    # what the result consists of prints on its own, too
    r = [(str(e), PRINT[kind](e))]
    if kind == 'solids':
        r += [(str(t), p_tensor(t)) for t in (e.stress, e.strain)]
    elif kind != 'beams':
        r += [(str(x), p_surface(x)) for x in (e.mid, e.inner, e.outer, e.get_mean())]
        r += [(str(x), p_tensor(x)) for x in (e.inner_strain, e.outer_strain)]
        ips = e.get_add_ips()
        r += [(str(ips[i]), p_surface(ips[i])) for i in range(len(ips))]
        if kind == 'shells':
            r += [(str(x), p_list((x.x, x.y, x.xy))) for x in (e.bending_moment, e.normal_resultant)]
            x = e.shear_resultant
            r.append((str(x), p_list((x.x, x.y))))
    return r

def d_print(p, what, st):
    r = []
    try:
        a = getattr(p, what)(st) if st >= 0 else getattr(p, what)()
    except RuntimeError:
        return r
    if what.startswith('read_node_'):
        return [(repr(a), ' '.join(p_list(a[i]) for i in range(len(a))))]
    kind = what[5:-6]
    for i in range(len(a)):
        e = a[i]
        r += p_parts(kind, e) if st >= 0 else [(str(e), p_con(e))]
    return r

# ------------------------------------------------------------------ key files
def k_parse(path, out, inc, ign, extra, how):
    if how == 0:
        return dro.key_file_parse(path, out, inc, ign, extra)
    kw = {}
    if not out:
        kw['output_warnings'] = out
    if not inc:
        kw['parse_includes'] = inc
    if ign:
        kw['ignore_not_found_includes'] = ign
    if extra:
        kw['extra_include_paths'] = extra
    return dro.key_file_parse(path, **kw)

def card_text(c):
    try:
        return str(c).encode()
    except UnicodeDecodeError:
        return None

# all keywords with the name
def k_slice(ks, name, drop):
    s = ks[name]
    r = []
    cards = []
    for i in range(len(s)):
        k = s[i]
        bounds(k)
        c = [k[j] for j in range(len(k))]
        if drop:
            cards.append(c)
        else:
            r.append([card_text(x) for x in c])
    bounds(s)
    if drop:
        del s, ks
        k = None
        gc.collect(0)
        r = [[card_text(x) for x in c] for c in cards]
    return r

def k_card(ks, name, i, j):
    return ks[name][i][j]

def c_value(r):
    if r is None:
        return b'none'
    if isinstance(r, int):
        return b'int %d' % r
    if isinstance(r, float):
        return b'nan' if r != r else b'float %.17g' % r
    return b'str ' + tx(r)

def c_step(c, op, w, v, trim):
    if op == 'begin':
        if v < 0:
            c.begin()
        else:
            c.begin(v)
        return b''
    if op == 'next':
        if v < 0:
            c.next()
        else:
            c.next_width(v) if trim else c.next(v)
        return b''
    if op == 'done':
        return b'%d' % c.done()
    if op == 'empty':
        return b'%d' % (c.is_empty() if v < 0 else c.is_empty(v))
    if op == 'i64':
        return c_value(c.parse_i64() if v < 0 else c.parse_i64(v) if trim else c.parse_width_i64(v))
    if op == 'f64':
        return c_value(c.parse_f64() if v < 0 else c.parse_f64(v) if trim else c.parse_width_f64(v))
    if op == 'str':
        if v < 0:
            return c_value(c.parse_str() if trim else c.parse_str(False))
        return c_value(c.parse_str(trim, v) if w % 2 else c.parse_width_str(v, trim))
    if op == 'parse':
        return c_value((c.parse() if trim else c.parse(False)) if v < 0 else c.parse(trim, v))
    raise Bad(op)

def c_whole(c, widths):
    r = c.parse_whole(widths) if widths else c.parse_whole()
    need(isinstance(r, list), 'no list')
    return [c_value(x) for x in r]

def i_text(t):
    return ([tx(s) for s in (t.get_file_name(), t.get_suffix(), t.get_fcttem())],
            [t.get_idnoff(), t.get_ideoff(), t.get_idpoff(), t.get_idmoff(), t.get_idsoff(),
             t.get_idfoff(), t.get_iddoff(), t.get_idroff(), t.get_incout1(), t.get_tranid()],
            [t.get_fctmas(), t.get_fcttim(), t.get_fctlen()])

def include_transform(kw, one_by_one):
    if one_by_one:
        t = dro.IncludeTransform()
        for i in range(len(kw)):
            t.parse_include_transform_card(kw[i], i)
    else:
        t = dro.IncludeTransform(kw)
    return i_text(t)

def define_transformation(kw, one_by_one, title, drop):
    if one_by_one:
        t = dro.DefineTransformation()
        for i in range(len(kw)):
            if title and i % 2:
                t.parse_define_transformation_card(kw[i], i)
            else:
                t.parse_define_transformation_card(kw[i], i, title)
    else:
        t = dro.DefineTransformation(kw)
    o = t.get_options()
    tr = t.get_tranid()
    l = [o[i] for i in range(len(o))]
    bounds(o)
    if drop:
        del t, o
        gc.collect(0)
    names, pars = [], []
    for x in l:
        names.append(tx(x.get_name()))
        p = x.get_parameters()
        need(len(p) == 7, 'other number of parameters')
        pars += nums(p)
    return names, [tr], pars

# ------------------------------------------------------------------ arrays
TEXT8 = ('Int8Array', 'Uint8Array')
STRINGS = ('String', 'SizedString')
BYTES = TEXT8 + STRINGS

def decoded(m):
    try:
        return bytes(x & 255 for x in m).decode()
    except UnicodeDecodeError:
        return None

def raises(f, kinds, what):
    try:
        f()
    except kinds:
        return
    except Exception as e:
        raise Bad('%s raises %r' % (what, e))
    raise Bad('%s does not raise' % what)

def shown(kind, m):
    return '%s %r' % (kind, m)

def check_object(kind, a, m):
    what = shown(kind, m)
    need(len(a) == len(m), '%s has %d elements' % (what, len(a)))
    if kind in STRINGS:
        v = [a[i] for i in range(len(a))]
        need(v == [chr(x) for x in m], '%s holds %r' % (what, v))
        need(list(a) == v, 'list() of %s gives %r' % (what, list(a)))
    else:
        v = [a[i] for i in range(len(a))]
        need(v == m, '%s holds %r' % (what, v))
        need(list(a) == v, 'list() of %s gives %r' % (what, list(a)))
        need(list(reversed(a)) == m[::-1], 'reversed() of %s' % what)
    for k in (len(a), len(a) + 1, 2**63):
        raises(lambda: a[k], IndexError, 'element %d of %s' % (k, what))
    if kind in BYTES:
        t = decoded(m)
        if t is not None:
            need(str(a) == t, 'str() of %s gives %r' % (what, str(a)))
            need(repr(a) == "'" + t + "'", 'repr() of %s gives %r' % (what, repr(a)))
            for o in (t, t + 'x', t + ' ', t[:-1], 'x' + t[1:], t + chr(0)):
                need((a == o) == (t == o), '%s == %r gives %r' % (what, o, a == o))
                need((a != o) == (t != o), '%s != %r gives %r' % (what, o, a != o))
        for o in (5, None, object(), b'x'):
            need(not (a == o) and a != o, '%s == %r' % (what, o))
            raises(lambda: a < o, TypeError, '%s < %r' % (what, o))
            raises(lambda: a > o, TypeError, '%s > %r' % (what, o))
    else:
        others = [m, m + [0], m[:-1], m[1:] + m[:1]] + [m[:i] + [x] + m[i + 1:] for i in range(len(m)) for x in (0, 1)]
        for o in others:
            need((a == o) == (m == o), '%s == %r gives %r' % (what, o, a == o))
            need((a != tuple(o)) == (m != o), '%s != tuple %r gives %r' % (what, o, a != tuple(o)))
        for o in (5, None, 'x'):
            need(not (a == o) and a != o, '%s == %r' % (what, o))
        for x in others[4:][:2]:
            for y in x:
                need((y in a) == (y in m), '%r in %s' % (y, what))
        raises(lambda: a < a, TypeError, '%s < itself' % what)
        raises(lambda: a > a, TypeError, '%s > itself' % what)

def check_pair(k1, a, m1, k2, b, m2):
    what = '%s and %s: ' % (shown(k1, m1), shown(k2, m2))
    if k1 in STRINGS and k2 in STRINGS or k1 == k2:
        eq = m1 == m2
        need((a == b) == eq and (b == a) == eq, what + 'a == b gives %r' % (a == b))
        need((a != b) == (not eq), what + 'a != b gives %r' % (a != b))
    if k1 in STRINGS and k2 in STRINGS or k1 == k2 and k1 in TEXT8:
        c, d = bytes(x & 255 for x in m1), bytes(x & 255 for x in m2)
        need((a < b) == (c < d), what + 'a < b gives %r' % (a < b))
        need((a > b) == (c > d), what + 'a > b gives %r' % (a > b))
        need((b < a) == (d < c), what + 'b < a gives %r' % (b < a))
        need((b > a) == (d > c), what + 'b > a gives %r' % (b > a))

def objects_history(steps):
    pool = []
    count = 0
    for op in steps:
        name = op[0]
        if name == 'new':
            kind, how, arg = op[1:]
            cls = getattr(dro, kind)
            if kind in STRINGS:
                if how == 'bad':
                    raises(lambda: cls(arg), TypeError, '%s(%r)' % (kind, arg))
                    continue
                a = cls(list(arg) if how == 'list' else tuple(arg) if how == 'tuple' else arg)
                m = list(arg.encode())
            else:
                a, m = cls(arg), [0] * arg
            pool.append((kind, a, m))
        elif not pool:
            continue
        elif name == 'set':
            kind, a, m = pool[op[1] % len(pool)]
            i, x = op[2], op[3]
            if i < len(m):
                a[i] = x
                m[i] = ord(x) if isinstance(x, str) else x
                if kind == 'Int8Array' and m[i] > 127:
                    m[i] -= 256
            else:
                def out():
                    a[i] = x
                raises(out, (IndexError, RuntimeError), 'setting element %d of %s' % (i, shown(kind, m)))
        elif name == 'setbad':
            kind, a, m = pool[op[1] % len(pool)]
            if not m:
                continue
            def bad():
                a[op[2] % len(m)] = op[3]
            raises(bad, (TypeError, ValueError, RuntimeError), 'setting an element of %s to %r' % (shown(kind, m), op[3]))
        elif name == 'fill':
            kind, a, m = pool[op[1] % len(pool)]
            for i in range(len(m)):
                x = op[2][i % len(op[2])]
                a[i] = x
                m[i] = ord(x) if isinstance(x, str) else x
        elif name == 'sort':
            for kinds in (STRINGS, ('Int8Array',), ('Uint8Array',)):
                l = [(a, bytes(x & 255 for x in m)) for k, a, m in pool if k in kinds]
                got = sorted(a for a, m in l)
                by = {id(a): m for a, m in l}
                need([by[id(a)] for a in got] == sorted(m for a, m in l),
                     'sorted() gives %r' % [by[id(a)] for a in got])
        elif name == 'del':
            del pool[op[1] % len(pool)]
            a = b = None
            gc.collect(0)
        elif name == 'pair':
            check_pair(*pool[op[1] % len(pool)], *pool[op[2] % len(pool)])
        for kind, a, m in pool:
            check_object(kind, a, m)
            count += 1
    for p in pool:
        for q in pool:
            check_pair(*p, *q)
            count += 1
    return count
)PY" R"PY(
# ------------------------------------------------------------------ lifetimes
READS = ('read_node_ids', 'read_part_ids', 'read_part_titles', 'read_solid_elements',
         'read_thick_shell_elements', 'read_beam_elements', 'read_shell_elements', 'read_title',
         'read_all_node_coordinates', 'read_all_time')
STATES = ('read_solids_state', 'read_thick_shells_state', 'read_beams_state',
          'read_shells_state', 'read_node_coordinates', 'read_node_velocity')

def kind_of(o):
    return type(o).__name__ if type(o).__module__.startswith('dynareadout') else ''

def sequence(o):
    return isinstance(o, list) or kind_of(o) != 'Keywords' and hasattr(o, '__getitem__')

# everything that can be read from an object
def snap(o, deep=4):
    if isinstance(o, float):
        return 'nan' if o != o else o
    if o is None or isinstance(o, (int, str, bytes)):
        return o
    if isinstance(o, (list, tuple)):
        return [snap(x, deep - 1) for x in o[:6]]
    n = kind_of(o)
    if not n:
        return repr(o)
    if n in ('String', 'SizedString'):
        return tx(o)
    if n == 'Card':
        return str(o)
    if n == 'Binout':
        return snap(o.read('/'))
    if n == 'D3plot':
        return [o.num_time_steps(), snap(o.read_title())]
    if n == 'Keywords':
        return len(o)
    if sequence(o):
        k = len(o)
        return [k] + [snap(o[i], deep - 1) for i in sorted({0, 1, k // 2, k - 1}) if 0 <= i < k and deep]
    r = []
    for a in dir(type(o)):
        if a.startswith('_') or not deep:
            continue
        v = getattr(o, a)
        if callable(v):
            if not a.startswith('get_'):
                continue
            try:
                v = v()
            except TypeError:
                continue
        r.append((a, snap(v, deep - 1)))
    return r

# an object that is reached from another one
def derive(o, draw, plot, paths, names):
    n = kind_of(o)
    if n == 'D3plot':
        k = draw(5)
        if k == 0:
            return o.read_part(draw(4))
        if k == 1:
            return getattr(o, READS[draw(len(READS))])()
        return getattr(o, STATES[draw(len(STATES))])(draw(o.num_time_steps() + 1))
    if n == 'Binout':
        return o.read(paths[draw(len(paths))])
    if n == 'Keywords':
        return o[names[draw(len(names))]]
    if n in ('String', 'SizedString'):
        return None
    if n == 'Keyword' and draw(3) == 0:
        return (dro.DefineTransformation if draw(2) else dro.IncludeTransform)(o)
    if sequence(o):
        return o[draw(len(o))] if len(o) else None
    members = [a for a in dir(type(o)) if not a.startswith('_') and
               (a.startswith('get_') or not callable(getattr(o, a)))]
    if not members:
        return None
    v = getattr(o, members[draw(len(members))])
    if callable(v):
        for arguments in ((), (draw(3),), (plot,)):
            try:
                return v(*arguments)
            except TypeError:
                pass
        return None
    return v

RESULTS = ('ShellArray', 'ThickShellArray', 'BeamArray', 'SolidArray', 'SurfaceArray',
           'BeamIntegrationPointArray', 'SolidConArray', 'BeamConArray', 'ShellConArray',
           'Vec3Array')

# an element set to another one of the same kind
def assign(a, others, draw):
    b = others[draw(len(others))]
    if not len(a) or not len(b):
        return
    i, j = draw(len(a)), draw(len(b))
    want, before = snap(b[j]), snap(a[i])
    try:
        a[i] = b[j]
    except ValueError:
        need(a is not b or kind_of(a) in ('SurfaceArray', 'BeamIntegrationPointArray'),
             'element %d of a %s can not be set to its element %d' % (i, kind_of(a), j))
        want = before
    need(snap(a[i]) == want, 'setting element %d of a %s gives\n %.500r\nnot\n %.500r' %
         (i, kind_of(a), snap(a[i]), want))

def lifetimes(roots, paths, names, draw):
    pool = []
    seen = set()
    checks = 0
    plot = None
    def check(e):
        now = snap(e[0])
        need(now == e[1], 'a %s (%s) has changed from\n %.500r\nto\n %.500r' %
             (type(e[0]).__name__, e[2], e[1], now))
    def add(o, how):
        if o is not None and not isinstance(o, (int, float, str, bytes)):
            pool.append((o, snap(o), how))
            seen.add(type(o).__name__)
    for step in range(4 + draw(44)):
        what = draw(11)
        if not pool or what == 0:
            kind, path = roots[draw(len(roots))]
            try:
                o = dro.D3plot(path) if kind == 'd3plot' else dro.Binout(path) if kind == 'binout' else \
                    dro.key_file_parse(path, output_warnings=False)
                if kind == 'd3plot' and draw(2):
                    plot = o
                add(o, kind)
            except RuntimeError:
                pass
            o = None
        elif what < 6:
            e = pool[-1 if draw(2) else draw(len(pool))]
            try:
                r = derive(e[0], draw, plot, paths, names)
                if draw(3) == 0 and e in pool: # the object it came from goes first
                    pool.remove(e)
                how = '%s > %s' % (e[2], type(r).__name__)
                e = None
                add(r, how)
            except RuntimeError:
                pass
            e = r = None
        elif what == 6:
            del pool[draw(len(pool))]
            if draw(4) == 0:
                plot = None
        elif what == 7:
            gc.collect(1)
        elif what == 8:
            check(pool[draw(len(pool))])
            checks += 1
        else:
            k = draw(len(pool))
            o, _, how = pool[k]
            if what == 10 and kind_of(o) in RESULTS:
                assign(o, [e[0] for e in pool if kind_of(e[0]) == kind_of(o)], draw)
                pool = [(e[0], snap(e[0]), e[2]) for e in pool] # some are parts of the element
                checks += 1
                e = None
            elif sequence(o) and len(o) <= 30:
                want = [snap(x, 2) for x in (o[i] for i in range(len(o)))]
                it = iter(o)
                o = _ = None
                if draw(2):
                    del pool[k]
                got = []
                for x in it:
                    got.append(snap(x, 2))
                    if draw(8) == 0:
                        x = None
                        gc.collect(0)
                need(got == want, 'iterating over %s gives\n %.500r\nnot\n %.500r' % (how, got, want))
                checks += 1
                it = x = None
            o = _ = None
        if len(pool) > 12:
            del pool[draw(len(pool))]
    plot = None
    while pool:
        del pool[draw(len(pool))]
        for e in pool[:3]:
            check(e)
            checks += 1
        e = None
    return checks, sorted(seen)
)PY"
