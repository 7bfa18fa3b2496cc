"""Small functions exercising the models of pyvc/lib.py, loops.py and interp.py.

Each is executed twice on the same inputs: symbolically by pyvc (for symbolic sizes and contents; the resulting
terms are then evaluated) and by the installed Python, numpy and casadi.  tools/conform.py compares the results.
Argument kinds, read off the name: a,b,c vectors of one length n; s strictly increasing vector (n+1); m,q matrices
n x p; w matrix p x n; d,e casadi columns n x 1; D casadi n x p; E casadi p x n; Q,R casadi n x n (regular); l,k lists
of n reals; g list of n positive ints; n,p,i sizes / index below n; x,y,z reals; u boolean-valued list; f real
function; L list of lists of unequal lengths g[i]."""
import copy
import itertools
import math

import casadi as ca
import numpy as np


# ------------------------------------------------------------------------------------------------ Python
def t_range_len(n): return [len(range(n)), len(range(1, n)), len(range(n, 0, -1))]
def t_range_back(n): return [r for r in range(n - 1, -1, -1)]
def t_enumerate(l): return [r * v for r, v in enumerate(l)]
def t_enumerate_start(l): return [r * v for r, v in enumerate(l, start=2)]
def t_zip(l, k): return [v - w for v, w in zip(l, k)]
def t_zip_shift(l): return [v - w for v, w in zip(l[1:], l[:-1])]
def t_zip_shift2(l): return [v - w for v, w in zip(l, l[1:])]
def t_sum(l): return sum(l)
def t_sum_start(l, x): return sum(l, x)
def t_sum_gen(l): return sum(v * v for v in l)
def t_max(l): return max(l)
def t_min(l): return min(l)
def t_max2(x, y, z): return [max(x, y), min(x, y), max(x, y, z), min([x, y, z])]
def t_max_default(l): return max(l[1:], default=7)
def t_abs(x): return abs(x)
def t_int(x): return int(x)
def t_floordiv(n, p): return [n // p, n % p, (-n) // p, (-n) % p]
def t_slices(l, i): return l[i:] + l[:i] + l[-1:] + l[:-1]
def t_reverse(l): return l[::-1]
def t_reversed(l): return [v for v in reversed(l)]
def t_list_mul(x, n): return [x] * n
def t_list_mul2(x, y, n): return [x, y] * n
def t_list_neg(l): return [l[-1], l[0]]
def t_in(g, n): return n in g
def t_any(l, x): return any(v > x for v in l)
def t_all(l, x): return all(v > x for v in l)
def t_sorted(l): return sorted(l)
def t_sort_key(l):
    r = list(l)
    r.sort(key=lambda v: -v)
    return r
def t_append_if(l, x):
    r = []
    for v in l:
        if v > x:
            r.append(v)
    return r
def t_append_else(l, x):
    r = []
    for v in l:
        if v > x:
            r.append(v)
        else:
            r.append(x)
    return r
def t_append_two(l, x):
    r = []
    for v in l:
        r.append(v)
        r.append(x)
    return r
def t_extend(L):
    r = []
    for v in L:
        r.extend(v)
    return r
def t_plus_equal(L, l):
    r = []
    for j in range(len(L)):
        r += L[j]
        r += [l[j]]
    return r
def t_nested_sum(L):
    s = 0
    for v in L:
        for w in v:
            s = s + w
    return s
def t_running(l):
    s, r = 0, []
    for v in l:
        r.append(s)
        s += v
    return r
def t_running_max(l, x):
    m = x
    for v in l:
        if v > m:
            m = v
    return m
def t_running_max2(l, x):
    m = x
    for v in l:
        m = max(m, v)
    return m
def t_last(l, x):
    m = x
    for v in l:
        m = v
    return m
def t_last_index(l):
    for j in range(len(l)):
        pass
    return j
def t_count(l, x):
    m = 0
    for v in l:
        if v < x:
            m += 1
    return m
def t_comp_if(l, x): return [v for v in l if v > x]
def t_ternary(l, x): return [v if v > x else x for v in l]
def t_lambda_late(l):
    fs = [lambda v, w=w: v + w for w in l]
    return [h(2) for h in fs]
def t_lambda_capture(l):
    fs = [lambda v: v + w for w in l]
    return [h(2) for h in fs]
def t_nested_list(L): return [len(v) for v in L]
def t_chain(x, y, z): return [x < y < z, x <= y and y <= z, x < y or y < z, not x < y]
def t_groupby(l, x): return [[1 if r else 0, len(list(w))] for r, w in itertools.groupby(l, lambda v: v > x)]
def t_index_store(l, i, x):
    r = list(l)
    r[i] = x
    return r
def t_dict_loop(l):
    d = {}
    for j in range(len(l)):
        d[j] = l[j]
    return [d[j] for j in range(len(l))]
def t_copy(L):
    r = copy.deepcopy(L)
    r[0] = [1]
    return [L[0], r[0]]
def t_while(n):
    j, s = 0, 0
    while j < n:
        s += j
        j += 1
    return [j, s]
def t_cursor(s, a):
    j, r = 0, []
    for v in s[:-1]:
        r.append(a[j])
        j += 1
    return r
def t_prefix(g):
    r = [0]
    for v in g:
        r.append(r[-1] + v)
    return r
def t_prefix2(g):
    r = [0, 1]
    for v in g:
        r.append(r[-1] + r[-2] + v)
    return r
def t_prefix_len(g):
    r = [0]
    for v in g:
        r.append(len(r))
    return r
def t_prefix_sum(g):
    r = []
    for v in g:
        r.append(sum(r) + v)
    return r
def t_prefix_first(g):
    r = [3]
    for v in g:
        r.append(r[0] + v)
    return r
def t_prefix_index(g):
    r = [0]
    for j in range(len(g)):
        r.append(r[j] + g[j])
    return r
def t_prefix_in(g):
    r = []
    for v in g:
        if v not in r:
            r.append(v)
    return r
def t_prefix_array(a, n):
    r = np.zeros(n + 1)
    for j in range(n):
        r[j + 1] = r[j] + a[j]
    return r
def t_prefix_array_back(a, n):
    r = np.zeros(n + 1)
    for j in range(n - 1, -1, -1):
        r[j] = r[j + 1] + a[j]
    return r
def t_store_read_later(a, n, x):
    r = np.zeros(n)
    for j in range(n):
        r[j] = r[0] + x
    return r
def t_store_shift(a, n):
    r = a.copy()
    for j in range(1, n):
        r[j] = r[j - 1]
    return r
def t_store_shift_ok(a, n):
    r = a.copy()
    for j in range(n - 1):
        r[j] = r[j + 1]
    return r
def t_store_fixed(a, n):
    r = np.zeros(2)
    for j in range(n):
        r[0] = a[j]
    return r
def t_store_twice(a, n, x):
    r = np.zeros(n)
    for j in range(n):
        r[j] = a[j]
        r[n - 1 - j] = x
    return r
def t_store_cond(a, n, x):
    r = np.zeros(n)
    for j in range(n):
        if a[j] > x:
            r[j] = a[j]
    return r
def t_store_scaled(a, n):
    r = np.zeros(n)
    for j in range(n):
        r[j] += a[j]
        r[j] *= 2
    return r
def t_swap(l):
    v, w = 0, 1
    for z in l:
        v, w = w, v
    return [v, w]
def t_previous(l, x):
    r, last = [], x
    for v in l:
        r.append(v - last)
        last = v
    return r
def t_previous_store(a, n, x):
    r, last = np.zeros(n), x
    for j in range(n):
        r[j] = last
        last = a[j]
    return r
def t_two_sums(l):
    v, w = 0, 0
    for z in l:
        v += z
        w += v
    return [v, w]
def t_product(l):
    v = 1
    for z in l:
        v *= z
    return v
def t_affine(l, x):
    v = x
    for z in l:
        v = 2 * v + z
    return v
def t_flag(l, x):
    f = False
    for z in l:
        if z > x:
            f = True
    return 1 if f else 0
def t_flag_off(l, x):
    f = True
    for z in l:
        f = z > x
    return 1 if f else 0
def t_first_over(l, x):
    m = None
    for z in l:
        if m is None and z > x:
            m = z
    return -99 if m is None else m
def t_break(l, x):
    m = 0
    for z in l:
        if z > x:
            break
        m += 1
    return m
def t_break_found(l, x):
    m = x
    for z in l:
        if z > x:
            m = z
            break
    return m
def t_continue(l, x):
    m = 0
    for z in l:
        if z > x:
            continue
        m += z
    return m
def t_return_inside(l, x):
    for z in l:
        if z > x:
            return z
    return x
def t_nested_loops(m, n, p):
    s = 0
    for j in range(n):
        for r in range(p):
            s += m[j, r] * (j + r)
    return s
def t_nested_store(m, n, p):
    r = np.zeros((n, p))
    for j in range(n):
        for v in range(p):
            r[j, v] = m[j, v] + j
    return r
def t_nested_lists(m, n, p):
    r = []
    for j in range(n):
        w = []
        for v in range(p):
            w.append(m[j, v] + j)
        r.append(w)
    return r
def t_nested_reset(L):
    r = []
    for v in L:
        s = 0
        for w in v:
            s += w
        r.append(s)
    return r
def t_nested_noreset(L):
    r, s = [], 0
    for v in L:
        for w in v:
            s += w
        r.append(s)
    return r
def t_triangle(l):
    return [sum(l[:j]) for j in range(len(l))]
def t_triangle2(l):
    return [sum(l[j] for j in range(r)) for r in range(len(l))]
def t_lambda_loop(l):
    fs = []
    for w in l:
        fs.append(lambda v: v + w)
    return [h(2) for h in fs]
def t_shared_rows(n, x):
    r = [[0, 0]] * n
    r[0][0] = x
    return r
def t_shared_dict(n, x):
    r = [None] * n
    for j in range(n):
        r[j] = [x, j]
    r[0][1] = 5
    return r
def t_alias(l, x):
    r = l
    w = r
    w[0] = x
    return [r[0], l[0]]
def t_alias_slice(l, x):
    r = l[:]
    r[0] = x
    return [r[0], l[0]]
def t_np_alias_slice(a, x):
    r = a[1:]
    b = a.copy()
    return [r[0], b[0]]
def t_modify_while_iterating(a, n):
    r = a.copy()
    for j in range(n):
        r[j] = r[j] + r[n - 1]
    return r
def t_default_arg(x, y):
    def h(v, acc=[]):
        acc.append(v)
        return len(acc)
    return [h(x), h(y), h(x)]
def t_closure_update(l):
    acc = []
    def h(v):
        acc.append(v)
    for v in l:
        h(v)
    return acc
def t_dict_of_lists(l):
    d = {"a": [], "b": []}
    for v in l:
        d["a"].append(v)
        d["b"].append(2 * v)
    return [d["a"], d["b"]]
def t_dict_prefix(l, x):
    d = {0: x}
    for j in range(len(l)):
        d[j + 1] = d[j] + l[j]
    return [d[j] for j in range(len(l) + 1)]
def t_len_guard(l):
    r = [0]
    for v in l:
        if len(r) < 3:
            r.append(v)
    return r
def t_last_element_update(l):
    r = [0]
    for v in l:
        r[-1] = v
        r.append(0)
    return r
def t_last_element_add(l):
    r = [0]
    for v in l:
        r[-1] += v
        r.append(v)
    return r
def t_index_cursor(l, i):
    j = 0
    for v in l:
        if j < i:
            j += 1
    return j
def t_minmax_loop(l):
    v, w = l[0], l[0]
    for z in l:
        v, w = min(v, z), max(w, z)
    return [v, w]
def t_dict_shift(l):
    d = {}
    for j in range(len(l)):
        d[j] = l[j]
    for j in range(1, len(l)):
        d[j] = d[j - 1]
    return [d[j] for j in range(len(l))]
def t_dict_self(l):
    d = {}
    for j in range(len(l)):
        d[j] = l[j]
    for j in range(len(l)):
        d[j] = d[j] + 1
    return [d[j] for j in range(len(l))]
def t_dict_fixed_key(l, x):
    d = {"a": x}
    for v in l:
        d["a"] = d["a"] + v
    return d["a"]
def t_dict_last(l, x):
    d = {"a": x}
    for v in l:
        d["a"] = v
    return d["a"]
def t_nested_append(l, n, x):
    r = [[] for _ in range(n)]
    for j in range(n):
        r[j].append(l[j])
        r[j].append(x)
    return r
def t_nested_append_shared(l, n):
    r = [[]] * n
    for j in range(n):
        r[j].append(l[j])
    return r
def t_nested_store2(l, n, x):
    r = [[0, 0] for _ in range(n)]
    for j in range(n):
        r[j][1] = l[j]
    r[0][0] = x
    return r
def t_list_shift(l):
    r = list(l)
    for j in range(1, len(l)):
        r[j] = r[j - 1]
    return r
def t_list_shift_ok(l):
    r = list(l)
    for j in range(len(l) - 1):
        r[j] = r[j + 1]
    return r
def t_list_self(l, x):
    r = list(l)
    for j in range(len(l)):
        r[j] = r[j] * x
    return r
def t_list_swap(l):
    r = list(l)
    for j in range(len(l)):
        r[j], r[-1 - j] = r[-1 - j], r[j]
    return r
def t_list_pairs(l, n):
    r = [None] * n
    for j, v in enumerate(l):
        r[j] = (v, j)
    return [w[0] + w[1] for w in r]
def t_ragged_cursor(L):
    r, c = [], 0
    for v in L:
        r.append(c)
        c += len(v)
    return r
def t_array_grow(m):
    r = np.array([])
    for v in m:
        r = np.append(r, v)
    return r
def t_array_grow_len(m):
    r, w = np.array([]), []
    for v in m:
        r = np.append(r, v)
        w.append(len(r))
    return w
def t_array_grow_last(m):
    r, w = np.array([1.0]), []
    for v in m:
        w.append(r[-1])
        r = np.append(r, v)
    return w
def t_array_vstack(m, q):
    r = m
    for v in q:
        r = np.vstack((r, v))
    return r
def t_vertcat_grow(D, n):
    r = ca.DM.zeros(0, 1)
    for j in range(n):
        r = ca.vertcat(r, D[j, :].T)
    return r
def t_vertcat_list(D, n, x):
    r = []
    for j in range(n):
        r += [D[j, 0], x]
    return ca.vertcat(*r)
def t_state_object(l, x):
    class C:
        def __init__(self):
            self.v = x
        def add(self, w):
            self.v += w
    c = C()
    for w in l:
        c.add(w)
    return c.v
def t_bool_sum(l, x): return sum([1 for v in l if v > x])
def t_bool_arith(a, x): return (a > x) * a
def t_chained_ternary(l, x, y): return [1 if v > x else 2 if v > y else 3 for v in l]
def t_or_value(x, y): return [x or y, x and y]
def t_none_default(x):
    def h(v=None):
        return x if v is None else v
    return [h(), h(3)]
def t_kwargs(x, y):
    def h(v, *w, z=1, **o):
        return v + sum(w) + z + sum(o.values())
    return [h(x), h(x, y), h(x, y, y, z=3), h(x, z=2, q=y)]
def t_int_division(x, n): return [x // 1, int(n / 2), n // 2]
def t_round_trip(a): return np.array(list(a))
def t_neg_slice(l): return [l[-2:], l[:-2], l[::-1][:1]]
def t_slice_beyond(l, n): return [l[: n + 3], l[n:], l[n + 2 :]]
def t_mod_cursor(l, n):
    r = []
    for j in range(n):
        r.append(l[(j + 1) % n])
    return r
def t_mask_and(a, x, y): return a[(a > x) & (a < y)]
def t_mask_or_any(a, x, y): return ((a > x) | (a < y)).any()
def t_mask_not(a, x): return a[~(a > x)]
def t_where_first(a, x): return np.where(a > x)[0]
def t_isclose_exact(x): return abs(x - x) < 1e-12
def t_read_other(a, n):
    r, w = np.zeros(n), []
    for j in range(n):
        w.append(r[0])
        r[0] = a[j]
    return w
def t_read_other_guard(a, n, x):
    r, w = np.zeros(n), []
    for j in range(n):
        if r[0] > x:
            w.append(1)
        else:
            w.append(2)
        r[0] = a[j]
    return w
def t_read_own_value(a, n):
    r, w = np.zeros(n), []
    for j in range(n):
        r[j] = 2 * a[j]
        w.append(r[j])
    return w
def t_objects(l):
    r = [dict(v=x) for x in l]
    r[0]["v"] = 5
    return [r[0]["v"], r[-1]["v"]]
def t_objects_loop(l):
    r = [dict(v=x, w=0) for x in l]
    for j in range(len(l)):
        r[j]["w"] = r[j]["v"] + j
    return [w["w"] for w in r]
def t_nested_pop(l, n, x):
    r = [[v, x] for v in l]
    for j in range(n):
        r[j].pop()
    return r
def t_nested_insert(l, n, x):
    r = [[v] for v in l]
    for w in r:
        w.insert(0, x)
    return r
def t_nested_augment(l, n, x):
    r = [[v] for v in l]
    for j in range(n):
        r[j] += [x]
    return r
def t_nested_augment_item(l, n, x):
    r = [[v] for v in l]
    for j in range(n):
        r[j][0] += x
    return r
def t_arrays_in_list(l, n, x):
    r = [np.zeros(2) for v in l]
    for j in range(n):
        r[j][1] = l[j]
    return r
def t_arrays_in_list_alias(l, n, x):
    r = [np.zeros(2) for v in l]
    w = r[0]
    r[0] += x
    return [w, r[0]]
def t_list_item_alias(l, n, x):
    r = [[v] for v in l]
    w = r[0]
    r[0] += [x]
    return [w, r[0]]
def t_iter_alias(l, x):
    r = [[v] for v in l]
    for w in r:
        w.append(x)
    return r
def t_inner_alias(n, x):
    w = [0]
    r = [w for _ in range(n)]
    r[0].append(x)
    return r
def t_deep_append(l, n, x):
    r = [[[v]] for v in l]
    for j in range(n):
        r[j][0].append(x)
    return r
def t_deep_append_one(l, n, x):
    r = [[[v]] for v in l]
    r[0][0].append(x)
    return r
def t_deep_store(l, n, x):
    r = [[[v, 0], 1] for v in l]
    for j in range(n):
        r[j][0][1] = x * j
    return r
def t_deep_shared(n, x):
    w = [0]
    r = [[w, 1] for _ in range(n)]
    r[0][0].append(x)
    return r
def t_deep_dict(l, n, x):
    r = [{"a": [v]} for v in l]
    for j in range(n):
        r[j]["a"].append(x)
    return [w["a"] for w in r]
def t_loop_alias(l, n, x):
    r, w = [], [x]
    for j in range(n):
        r.append(w)
    w.append(7)
    return r
def t_loop_alias_in(l, n, x):
    r, w = [], [x]
    for j in range(n):
        r.append(w)
        w[0] = l[j]
    return r
def t_loop_array_alias(a, n, x):
    r, w = [], np.zeros(2)
    for j in range(n):
        r.append(w)
        w[0] = a[j]
    return r
def t_unpack(x, y, z):
    v, *w = [x, y, z]
    return [v, w]
def t_str_keys(x, y):
    d = dict(a=x, b=y)
    d["c"] = d["a"] * d["b"]
    return [d["c"], len(d), "a" in d, d.get("z", 3), d.get("b", 3)]


# ------------------------------------------------------------------------------------------------ numpy
def t_np_arith(a, b, x): return [a + b, a - x, x * a, a * b, -a, a / 2, a**2]
def t_np_cmp(a, b, x): return [(a > b).any(), (a > x).all(), (a >= x).any()]
def t_np_zeros(n, p): return np.zeros((n, p))
def t_np_ones(n): return np.ones(n)
def t_np_full(n, x): return np.full(n, x)
def t_np_zeros_int(n, x):
    r = np.zeros(n, dtype=int)
    r[0] = x
    return r
def t_np_int_array(x):
    r = np.array([1, 2, 3])
    r[1] = x
    return r
def t_np_float_array(x):
    r = np.array([1, 2, 3], dtype=float)
    r[1] = x
    return r
def t_np_like(a, x):
    r = np.zeros_like(a)
    r[0] = x
    return r
def t_np_astype(a): return [a.astype(int), a.astype(float)]
def t_np_append(a, b, x): return np.append(np.append(a, x), b)
def t_np_append_front(a, x): return np.append(x, a)
def t_np_cumsum(a): return np.cumsum(a)
def t_np_cumsum_first(a, x): return np.append(x, x + np.cumsum(a))
def t_np_linspace(x, y, n): return np.linspace(x, y, n + 1)
def t_np_linspace_vec(a, b, p): return np.linspace(a, b, p + 1)
def t_np_linspace_inner(x, y, n): return np.linspace(x, y, n + 1)[1:-1]
def t_np_concat(a, b): return np.concatenate((a, b))
def t_np_concat_list(m): return np.concatenate([v for v in m])
def t_np_concat_mat(m): return np.concatenate(m)
def t_np_concat_rows(m, q): return np.concatenate((m, q))
def t_np_concat_cols(m, q): return np.concatenate((m, q), axis=1)
def t_np_concat_ragged(L): return np.concatenate([np.array(v) for v in L])
def t_np_repeat(x, n): return np.repeat(x, n)
def t_np_repeat_vec(a, p): return np.repeat(a, p)
def t_np_repeat_list(x, y, n): return np.repeat([x, y], n)
def t_np_tile(a, n): return np.tile(a, n)
def t_np_tile_rows(a, n): return np.tile(a, (n, 1))
def t_np_tile_cols(a, n): return np.tile(a, (1, n))
def t_np_tile_both(a, n): return np.tile(a, (3, n))
def t_np_tile_mat(m, n): return np.tile(m, n)
def t_np_tile_mat2(m, n): return np.tile(m, (n, 2))
def t_np_tile_row_set(a, b, n):
    v = np.tile(a, (n, 1))
    v[0] = b
    return v.T.flatten()
def t_np_dot(m, c): return np.dot(c, m)
def t_np_dot_vec(a, b): return np.dot(a, b)
def t_np_dot_mat(m, w): return np.dot(m, w)
def t_np_matmul(m, w): return m @ w
def t_np_vstack(a, b): return np.vstack([a, b])
def t_np_vstack_mat(m, q): return np.vstack((m, q))
def t_np_hstack(a, b): return np.hstack([a, b])
def t_np_hstack_list(m): return np.hstack([v + 1 for v in m])
def t_np_vstack_list(m): return np.vstack([v + 1 for v in m])
def t_np_vstack_pairs(m): return np.vstack([np.array([v, 2 * v]) for v in m])
def t_divmod(n): return list(divmod(n, 3)) + [divmod(-n, 4)[1]]
def t_slice_object(a, m):
    rows = slice(1, 2)
    return [a[rows], a[slice(1)], m[slice(None, None, 2)], m[rows, 0]]
def t_while_symbolic(a):
    out, i = [], 0
    while i < len(a):
        out.append(a[i] * i)
        i += 1
    return out, i
def t_while_none(a):
    i, s = 5, 0
    while i <= len(a) - 9:
        s = s + a[i]
        i += 1
    return s, i
def t_while_growing(n):
    v, i = [0], 0
    while i < len(v):
        if len(v) < n:
            v.append(i)
        i += 1
    return v, i
def t_np_hstack_mat(m, q): return np.hstack((m, q))
def t_np_sort(a): return np.sort(a)
def t_np_sorted_method(a):
    r = a.copy()
    r.sort()
    return r
def t_np_abs(a): return np.abs(a)
def t_np_sum(m): return [np.sum(m), m.sum(), sum(sum(m))]
def t_np_sum_axis(m): return [m.sum(axis=0), np.sum(m, axis=1), np.sum(m, axis=-1)]
def t_np_max_axis(m): return [m.max(axis=0), np.max(m, axis=1), m.max(), m.min()]
def t_np_any_axis(m, x): return [1 * (m > x).any(axis=0), 1 * np.all(m > x, axis=1)]
def t_np_argmax(a): return [a.argmax(), np.argmin(a)]
def t_np_argmax_bool(a, x): return (a > x).argmax()
def t_np_norm(m): return np.linalg.norm(m, 2, axis=1)
def t_np_mean(a): return np.mean(a)
def t_np_cos(a): return np.cos(a)
def t_np_sqrt(a): return np.sqrt(np.abs(a))
def t_np_minmax(a, b, x): return [np.minimum(a, b), np.maximum(a, x), np.clip(a, x, x + 1)]
def t_np_diff(a): return np.diff(a)
def t_np_arange(n): return np.arange(n)
def t_np_arange2(n): return np.arange(1, n + 2)
def t_np_prod(a): return np.prod(a)
def t_np_flip(a): return np.flip(a)
def t_np_where(a, b, x): return np.where(a > x, a, b)
def t_np_mask(a, x): return a[a > x]
def t_np_mask_other(a, b, x): return b[a > x]
def t_np_mask_count(a, x): return len(a[a > x])
def t_np_mask_store(a, x):
    r = a.copy()
    r[r > x] = x
    return r
def t_np_slice_store(a, x):
    r = a.copy()
    r[1:] = x
    r[0] = 2 * x
    return r
def t_np_row_store(m, x):
    r = m.copy()
    r[0] = x
    r[-1, -1] = 2 * x
    return r
def t_np_col_store(m, c):
    r = m.copy()
    r[:, 0] = c
    return r
def t_np_index(a): return [a[0], a[-1], a[1:], a[:-1], a[::-1]]
def t_np_index2(m): return [m[0], m[-1], m[:, 0], m[:, -1], m[0, 0], m[1:, :], m[:, :-1]]
def t_np_fancy(a): return a[[0, -1]]
def t_np_T(m): return m.T
def t_np_shape(m): return [m.shape[0], m.shape[1], m.size, len(m), m.ndim]
def t_np_reshape(a): return [a.reshape(-1, 1) if False else a, a.reshape((a.size, 1))]
def t_np_flatten(m): return m.flatten()
def t_np_tolist(a): return a.tolist()
def t_np_outer_broadcast(m, c): return m * c[:, None] if False else m.T * c
def t_np_broadcast_row(m, x): return m + m[0] * x
def t_np_array_nested(l, k): return np.array([l, k])
def t_np_array_of_lists(m): return np.array([[v for v in r] for r in m])
def t_np_iter_rows(m): return [sum(r) for r in m]
def t_np_augment(a, x):
    r = a.copy()
    r += x
    r[0] *= 2
    return r
def t_np_loop_store(a, n):
    r = np.zeros(n)
    for j in range(n):
        r[j] = a[j] * j
    return r
def t_np_accumulate(a, n):
    r = np.zeros(n)
    for j in range(1, n):
        r[j] = a[j]
    return r
def t_np_poly(l): return np.poly1d([1.0, 2.0, 3.0])(2.0)
def t_np_polyder(x): return np.polyder(np.poly1d([1.0, 2.0, 3.0]))(x)
def t_np_polyint(x, y): return (lambda P: P(y) - P(x))(np.polyint(np.poly1d([1.0, 2.0, 3.0])))
def t_np_poly_mul(x, y): return (np.poly1d([1, -y]) * np.poly1d([1.0, 3.0]))(x)
def t_np_inf(): return [np.inf > 3, -np.inf < 3]
def t_np_isfinite(a, n): return [bool(np.isfinite(n)), bool(np.isfinite(np.inf)), bool(np.isinf(-np.inf)), bool(np.isfinite(a[0])), bool(np.isinf(a).any())]


# ------------------------------------------------------------------------------------------------ casadi
def t_ca_arith(d, e, x): return [d + e, d * e, x * d, d - x, -d, d / 2]
def t_ca_zeros(n, p): return ca.DM.zeros(n, p)
def t_ca_zeros1(n): return ca.DM.zeros(n)
def t_ca_eye(n): return ca.DM.eye(n)
def t_ca_vertcat(d, e): return ca.vertcat(d, e)
def t_ca_vertcat_x(d, x): return ca.vertcat(d, x)
def t_ca_vertcat_star(m): return ca.vertcat(*[ca.DM(r) for r in m])
def t_ca_vertcat_list(l): return ca.vertcat(*l)
def t_ca_vec(D): return ca.vec(D)
def t_ca_reshape_like(D): return D[:]
def t_ca_kron(Q, D): return ca.kron(Q, D)
def t_ca_mtimes(D, E): return ca.mtimes(D, E)
def t_ca_matmul(D, E): return D @ E
def t_ca_mtimes_col(Q, d): return ca.mtimes(Q, d)
def t_ca_diag(d): return ca.diag(d)
def t_ca_diag_list(l): return ca.diag(l)
def t_ca_solve_diag(d, e): return ca.solve(ca.diag(d * d + 1), e)
def t_ca_T(D): return D.T
def t_ca_index(d): return [d[0], d[-1], d[1:], d[:-1]]
def t_ca_index2(D): return [D[0, 0], D[0, :], D[:, 0], D[-1, -1], D[1:, :], D[:, :-1]]
def t_ca_store(d, x):
    r = ca.DM(d)
    r[0] = x
    return r
def t_ca_block_store(D, n, p):
    r = ca.DM.zeros(2 * n, 2 * p)
    r[:n, :p] = D
    r[n:, p:] = 2 * D
    return r
def t_ca_size(D): return [D.size1(), D.size2(), D.numel(), D.shape[0], D.size(1), D.size(2)]
def t_ca_full(D): return D.full()
def t_ca_full_flat(d): return d.full().flatten()
def t_ca_sum1(D): return ca.sum1(D)
def t_ca_of_np(m): return ca.DM(m)
def t_ca_of_vec(a): return ca.DM(a)
def t_ca_of_list(l): return ca.DM(l)
def t_ca_np_dot(m, D): return np.dot(m.T, D)
def t_ca_times_np(d, a): return d * a
def t_ca_block_loop(D, n, p, g):
    r = ca.DM.zeros(n * n, n * p)
    for j in range(n):
        r[j * n : (j + 1) * n, j * p : (j + 1) * p] = D * g[j]
    return r
def t_ca_loop_rows(D, n, x):
    r = ca.DM(D)
    for j in range(n):
        r[j, 0] = x * j
    return r
def t_ca_loop_add(n, x):
    r = ca.DM.zeros(n + 1)
    for j in range(n):
        r[j] += x
        r[j + 1] += 2 * x
    return r
def t_replaced_element(l, n, x):
    r = [[v] for v in l]
    z = r[n - 1]
    r[n - 1] = [x]
    z.append(7)
    return r, z
def t_replaced_element_loop(l, n, x):
    r = [[v] for v in l]
    for j in range(n):
        z = r[j]
        r[j] = [x]
        z.append(7)
    return r
def t_popped_element(l, n, x):
    r = [[v] for v in l]
    z = r[n - 1]
    r.pop(0)
    z.append(7)
    return r, z
def t_inserted_before(l, n, x):
    r = [[v] for v in l]
    z = r[0]
    r.insert(0, [x])
    z.append(7)
    return r, z
def t_element_alias(l, n, x):
    r = [[v] for v in l]
    s = [r[0]]
    s[0].append(x)
    r[0].append(8)
    return r, s
def t_element_alias_slice(l, n, x):
    r = [[v] for v in l]
    s = r[:]
    s[0].append(x)
    return r, s
def t_element_alias_concat(l, n, x):
    r = [[v] for v in l]
    s = r + [[x]]
    s[0].append(x)
    return r, s
def t_element_alias_extend(l, n, x):
    r = [[v] for v in l]
    s = []
    s.extend(r)
    r[0].append(x)
    return r, s
def t_dict_replaced(l, n, x):
    r = [{"a": [v]} for v in l]
    z = r[0]["a"]
    r[0]["a"] = [x]
    z.append(7)
    return r[0]["a"], z
def t_element_comp_alias(l, n, x):
    r = [[v] for v in l]
    s = [w for w in r]
    s[0].append(x)
    return r, s
def t_element_reversed(l, n, x):
    r = [[v] for v in l]
    r.reverse()
    r[0].append(x)
    return r
def t_element_for(l, n, x):
    r = [[v] for v in l]
    for w in r:
        w.append(x)
    return r
def t_element_for_nested(l, n, x):
    r = [[[v]] for v in l]
    for w in r:
        for u in w:
            u.append(x)
    return r
def t_element_unpack(l, n, x):
    r = [[[v], [0]] for v in l]
    for j in range(n):
        a, b = r[j]
        b.append(x)
    return r
def t_element_zip(l, n, x):
    r = [[v] for v in l]
    for w, j in zip(r, range(n)):
        w.append(j * x)
    return r
def t_element_enum(l, n, x):
    r = [[v] for v in l]
    for j, w in enumerate(r):
        w[0] = j * x
    return r
def t_element_neg(l, n, x):
    r = [[v] for v in l]
    r[-1].append(x)
    r[n - 1].append(9)
    return r
def t_element_two(l, n, x):
    r = [[v] for v in l]
    z = r[0]
    y = r[0]
    z.append(x)
    y.append(8)
    return r, z, y
def t_element_two_sym(l, n, x):
    r = [[v] for v in l]
    z = r[n - 1]
    y = r[n - 1]
    z.append(x)
    y.append(8)
    return r, z, y
def t_element_array(l, n, x):
    r = [np.array([v, 0.0]) for v in l]
    r[n - 1][1] = x
    z = r[0]
    z[0] = 5
    return r
def t_element_array_loop(l, n, x):
    r = [np.array([v, 0.0]) for v in l]
    for j in range(n):
        r[j][1] = x * j
    return r
def t_element_array_view(l, n, x):
    r = [np.array([v, 0.0]) for v in l]
    z = r[0][:1]
    r[0][0] = x
    return z
def t_extend_then_store(l, n, x):
    r = [v for v in l]
    s = []
    s.extend(r)
    r[0] = x
    return s
def t_extend_then_append(l, n, x):
    r = [v for v in l]
    s = []
    s.extend(r)
    r.append(x)
    return s
def t_list_then_store(l, n, x):
    r = [v for v in l]
    s = list(r)
    r[0] = x
    return s
def t_enum_then_store(l, n, x):
    r = [v for v in l]
    s = list(enumerate(r))
    r[0] = x
    return [w for _, w in s]
def t_zip_then_store(l, n, x):
    r = [v for v in l]
    s = list(zip(r, l))
    r[0] = x
    return [w + v for w, v in s]
def t_star_then_store(l, n, x):
    r = [v for v in l]
    s = [0, *r]
    r[0] = x
    return s
def t_comp_then_store(l, n, x):
    r = [v for v in l]
    s = [2 * w for w in r]
    r[0] = x
    return s
def t_array_then_store(l, n, x):
    r = [v for v in l]
    s = np.array(r)
    r[0] = x
    return s
def t_alias_loop_pair(l, n, x):
    r = [[v] for v in l]
    for j in range(n):
        z = r[j]
        y = r[j]
        z.append(x)
        y.append(8)
    return r
def t_alias_loop_read(l, n, x):
    r = [[v] for v in l]
    s = []
    for j in range(n):
        z = r[j]
        r[j].append(x)
        s.append(len(z))
    return s
def t_pick_alias(l, n, x):
    a, b = [1], [2]
    r = [a if v > 0 else b for v in l]
    r[0].append(x)
    return r, a, b
def t_deepcopy_shared(l, n, x):
    a = [1]
    r = [a for _ in l]
    s = copy.deepcopy(r)
    s[0].append(x)
    return s, a
def t_append_alias_loop(l, n, x):
    r = [[v] for v in l]
    s = []
    for j in range(n):
        s.append(r[j])
    s[0].append(x)
    return r, s
def t_append_alias_loop2(l, n, x):
    r = [[v] for v in l]
    s = []
    for j in range(n):
        s.append(r[j])
    r[0].append(x)
    return r, s
def t_store_alias_loop(l, n, x):
    r = [[v] for v in l]
    z = r[0]
    for j in range(1, n):
        r[j] = z
    r[n - 1].append(x)
    return r
def t_store_alias_loop2(l, n, x):
    r = [[v] for v in l]
    for j in range(1, n):
        r[j] = r[0]
    r[n - 1].append(x)
    return r
def t_two_loops(l, n, x):
    r = [[v] for v in l]
    for j in range(n):
        r[j].append(x)
    for j in range(n):
        r[j][0] = j * x
        r[j].append(3)
    return r
def t_wrap_alias(l, n, x):
    r = [[v] for v in l]
    s = [[w, 0] for w in r]
    r[0].append(x)
    s[1][0].append(7)
    return r, s
def t_dict_alias(l, n, x):
    r = [[v] for v in l]
    s = {"a": r[n - 1]}
    s["a"].append(x)
    return r
def t_args_alias(l, n, x):
    def g(w):
        w.append(x)
        return w
    r = [[v] for v in l]
    z = g(r[0])
    z.append(5)
    return r
def t_args_alias_comp(l, n, x):
    def g(w):
        w.append(x)
        return w
    r = [[v] for v in l]
    s = [g(w) for w in r]
    return r, s
def t_sorted_alias(l, n, x):
    r = [[v] for v in l]
    s = list(reversed(r))
    s[0].append(x)
    return r, s
def t_store_alias_loop3(l, n, x):
    r = [[v] for v in l]
    z = [x]
    for j in range(1, n):
        r[j] = z
    r[n - 1].append(x)
    return r, z
def t_store_alias_loop4(l, n, x):
    r = [[v] for v in l]
    z = [x]
    for j in range(1, n):
        r[j] = z
    z.append(x)
    return r, z
def t_accumulate(l): return list(itertools.accumulate(l))
def t_accumulate_initial(l): return list(itertools.accumulate(l, initial=0))
def t_accumulate_ints(g): return [sum(range(v)) for v in itertools.accumulate(g, initial=0)]
def t_accumulate_pairs(g):
    b = [0] + list(itertools.accumulate(g))
    return [v - w for v, w in zip(b, b[1:])]
def t_accumulate_concrete(x, y, z): return list(itertools.accumulate([x, y, z]))
def t_chain3(l, k, x): return list(itertools.chain(l, [x], k))
def t_chain_loop(l, k):
    r = []
    for v in itertools.chain(l, k):
        r.append(2 * v)
    return r
def t_chain_flat(L): return list(itertools.chain.from_iterable(L))
def t_chain_star(x, y, l): return list(itertools.chain(*[[x, y], l]))
def t_sum_lists(L): return sum(L, [])
def t_sum_lists2(x, y, l): return sum([[x], l, [y]], [])
def t_twice_zip(l, k):
    z = zip(l, k)
    r = [v for v, w in z]
    return r, [v for v, w in z]
def t_twice_acc(l):
    z = itertools.accumulate(l)
    return [v for v in z], [v for v in z]
def t_twice_gen(l):
    z = (2 * v for v in l)
    return list(z), list(z)
def t_twice_chain(l, k):
    z = itertools.chain(l, k)
    return list(z), list(z)
def t_gen_late(l, x):
    z = (x * v for v in l)
    x = 2
    return list(z)
def t_gen_later_list(l, x):
    z = (v for v in l)
    l.append(x)
    return list(z)
def t_gen_stored(l, x):
    z = (x * v for v in l)
    r = [x]
    r.append(sum(z))
    return r
def t_gen_args(l, k): return max(v for v in l), sum(v * w for v, w in zip(l, k)), sorted(v for v in l), all(v < 9 for v in l), list(reversed(l)), list(map(abs, l))
def t_generator_loop(l, x):
    def g(w):
        for v in w:
            yield x * v
    r = []
    for v in g(l):
        r.append(v + 1)
    return r, list(g(l)), [v for v in g([x, 2])]
def t_generator_from(l, k, x):
    def g(w, z):
        yield from w
        yield x
        yield from z
    return list(g(l, k)), sum(g(l, k))
def t_generator_in_generator(l, k):
    def g(w):
        for v in w:
            yield 2 * v
    def h(w):
        for v in g(w):
            yield v + 1
    return list(h(l)), [(v, w) for v, w in zip(h(l), g(k))]
def t_generator_twice(l):
    def g(w):
        for v in w:
            yield 2 * v
    z = g(l)
    return list(z), list(z)
def t_generator_changed(l, x):
    def g(w):
        for v in w:
            yield v
    r = [x, x]
    s = []
    for v in g(r):
        s.append(v)
        r[1] = 7
    return s
def t_generator_changed_nested(l, x):
    def g(w):
        for v in w:
            yield v
    def h(w):
        for v in g(w):
            yield v
    r = [x, x]
    s = []
    for v in h(r):
        s.append(v)
        r[1] = 7
    return s
def t_generator_changed_zip(l, x):
    def g(w):
        for v in w:
            yield v
    r = [x, x]
    s = []
    for j, v in enumerate(g(r)):
        s.append(v + j)
        r[1] = 7
    return s
def t_generator_effect(l, x):
    t = []
    def g(w):
        for v in w:
            t.append(v)
            yield v
    z = g([x, 2])
    n = len(t)
    return n, list(z), t
def t_generator_return(l, x):
    def g(w):
        yield x
        if len(w) > 1:
            return
        yield 2
    return list(g([1])), list(g([1, 2]))
def t_np_logical(a, b, x): return [float(v) for v in np.logical_and(a > 0, b[:1] < 1)], [float(v) for v in np.logical_or(a > 0, a < x)], [float(v) for v in np.logical_not(a > x)], np.where(np.logical_and(a > 0, a < 1), 1, a)
def t_zip_star(l, k):
    q = [(v, 2 * v) for v in [1.5] + l]
    r, s = zip(*q)
    return list(r), list(s), [w for w in r]
def t_zip_star_gen(l, x):
    r, s, t = (np.vstack(p) for p in zip(*[([[v]], [[x]], [[v + x]]) for v in [1.0] + l]))
    return r, s, t
def t_star_gen(l, x):
    def g(w):
        for v in w:
            yield 2 * v
    return ca.vertcat(*g(l)), ca.vertcat(*(v * x for v in l)), max(*[1, 2]), ca.vertcat(x, *g(l))
def t_cursor_assign(L, n):
    r = []
    i = 0
    for v in L:
        for w in v:
            i = i + 1
        r.append(i)
    j = 0
    for v in r:
        j = 2 + j
    return r, i, j
