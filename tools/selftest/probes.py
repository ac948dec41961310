class Other:
    def __init__(self):
        self.x = 0
        self.l = []


class Probe:
    def __init__(self):
        self.x = 0
        self.n = 0
        self.l = []
        self.ll = []
        self.s = set()
        self.d = {}
        self.dl = {}

    def add(self, k):
        self.x = self.x + k
        return self.x

    def grow(self, m, k):
        m.append(k)
        return m

    def bump(self, m):
        m[0] += 5

    def truthy(self, k):
        self.n += 1
        return k > 0

    # ---- probes: p_NAME(self, c) with c == 1
    def p_branch_first(self, c):
        if c == 2:
            self.x = 7
        return self.x

    def p_branch_helper(self, c):
        self.x = 1
        if c == 1:
            self.add(3)
        else:
            self.add(10)
        return self.x

    def p_alias_field(self, c):
        self.l = [1, 2]
        m = self.l
        m.append(3)
        return len(self.l) * 10 + m[0]

    def p_alias_local(self, c):
        a = [1]
        b = a
        b.append(2)
        a[0] = 9
        return b[0] * 100 + len(a)

    def p_rebind_alias(self, c):
        self.l = [1, 2]
        m = self.l
        self.l = [5]
        m.append(3)
        return len(self.l) * 10 + len(m)

    def p_rebind_local(self, c):
        self.l = [1, 2]
        m = self.l
        m = [4]
        m.append(3)
        return len(self.l) * 10 + m[0]

    def p_store_then_mutate(self, c):
        m = [1]
        self.l = m
        m.append(2)
        return len(self.l)

    def p_nested_alias(self, c):
        self.ll = [[1], [2]]
        m = self.ll[0]
        m.append(8)
        self.ll[1] = [7, 7, 7]
        return len(self.ll[0]) * 10 + len(self.ll[1])

    def p_append_alias(self, c):
        m = [1]
        self.ll = []
        self.ll.append(m)
        m.append(2)
        return len(self.ll[0])

    def p_append_twice(self, c):
        m = [1]
        self.ll = []
        self.ll.append(m)
        self.ll.append(m)
        self.ll[0].append(4)
        return len(self.ll[1])

    def p_nested_replace(self, c):
        self.ll = [[1], [2]]
        m = self.ll[0]
        self.ll[0] = [5, 5]
        m.append(1)
        return len(self.ll[0]) * 10 + len(m)

    def p_helper_mutates(self, c):
        a = [1]
        self.grow(a, 4)
        return len(a)

    def p_helper_returns(self, c):
        a = [1]
        b = self.grow(a, 4)
        b.append(6)
        return len(a) * 10 + len(b)

    def p_helper_item(self, c):
        self.l = [1, 2]
        self.bump(self.l)
        return self.l[0]

    def p_copy(self, c):
        self.l = [1, 2]
        m = self.l.copy()
        m.append(3)
        k = list(self.l)
        k.append(1)
        k.append(1)
        return len(self.l) * 100 + len(m) * 10 + len(k)

    def p_slice(self, c):
        self.l = [1, 2, 3]
        m = self.l[1:]
        m.append(3)
        m[0] = 9
        return self.l[1] * 10 + len(self.l)

    def p_iadd(self, c):
        self.l = [1]
        m = self.l
        m += [2, 3]
        return len(self.l)

    def p_iadd_int(self, c):
        self.x = 4
        y = self.x
        y += 1
        return self.x * 10 + y

    def p_binop_list(self, c):
        a = [1]
        b = a + [2]
        b[0] = 5
        return a[0] * 10 + len(b)

    def p_swap(self, c):
        a, b = 1, 2
        a, b = b, a
        return a * 10 + b

    def p_swap_fields(self, c):
        self.x = 1
        self.n = 2
        self.x, self.n = self.n, self.x
        return self.x * 10 + self.n

    def p_shortcircuit(self, c):
        self.n = 0
        if self.truthy(c) or self.truthy(2):
            self.x = 1
        return self.n

    def p_shortcircuit_and(self, c):
        self.n = 0
        if self.truthy(0) and self.truthy(2):
            self.x = 1
        return self.n

    def p_ifexp_effect(self, c):
        self.n = 0
        y = self.add(1) if self.truthy(c) else self.add(100)
        return self.n * 1000 + self.x

    def p_div(self, c):
        return (-7) // 2 * 100 + (-7) % 3 + (7 // -2) * 10000

    def p_truediv(self, c):
        y = 7 / 2
        return 1 if y > 3 else 0

    def p_neg_index(self, c):
        a = [1, 2, 3]
        return a[-1] * 10 + a[-3]

    def p_chain(self, c):
        return 1 if 0 < c < 1 else 2

    def p_loop_field_first(self, c):
        for i in range(3):
            self.x = 4
        return self.x

    def p_loop_local(self, c):
        y = 0
        for i in range(3):
            y = y + i
        return y

    def p_loop_zero(self, c):
        y = 5
        for i in range(c - 1):
            y = 7
        return y

    def p_loop_break(self, c):
        y = 0
        for i in range(5):
            if i == 2:
                break
            y = i
        return y

    def p_loop_continue(self, c):
        y = 0
        for i in range(4):
            if i != 2:
                continue
            y = i
        return y

    def p_loop_return(self, c):
        for i in range(4):
            if i == 2:
                return 5
        return 6

    def p_loop_alias(self, c):
        self.ll = [[1], [2]]
        for m in self.ll:
            m.append(0)
        return len(self.ll[0])

    def p_loop_alias_choice(self, c):
        a = [1]
        b = [2]
        m = a
        for i in range(2):
            m = b
        m.append(3)
        return len(a) * 10 + len(b)

    def p_branch_alias_choice(self, c):
        a = [1]
        b = [2]
        if c == 1:
            m = a
        else:
            m = b
        m.append(3)
        return len(a) * 10 + len(b)

    def p_branch_alias_field(self, c):
        self.l = [1]
        m = [1, 2]
        if c == 1:
            m = self.l
        m.append(3)
        return len(self.l)

    def p_while(self, c):
        y = 0
        while y < 3:
            y += 1
            self.x = y
        return self.x

    def p_while_true(self, c):
        y = 0
        while True:
            y += 1
            if y == 4:
                break
        return y

    def p_dict_alias(self, c):
        self.dl = {}
        self.dl[1] = [1]
        m = self.dl[1]
        m.append(2)
        return len(self.dl[1])

    def p_dict_replace(self, c):
        self.dl = {}
        self.dl[1] = [1]
        m = self.dl[1]
        self.dl[1] = [2, 3]
        m.append(2)
        return len(self.dl[1]) * 10 + len(m)

    def p_dict_store_local(self, c):
        m = [1]
        self.dl = {}
        self.dl[1] = m
        self.dl[2] = m
        m.append(2)
        return len(self.dl[1]) * 10 + len(self.dl[2])

    def p_dict_in(self, c):
        self.d = {}
        self.d[3] = 0
        return (1 if 3 in self.d else 0) * 10 + (1 if 4 in self.d else 0)

    def p_dict_get(self, c):
        self.d = {}
        self.d[3] = 7
        return self.d.get(3, 1) * 10 + self.d.get(4, 1)

    def p_set_alias(self, c):
        self.s = set()
        t = self.s
        t.add(4)
        return 1 if 4 in self.s else 0

    def p_set_copy(self, c):
        self.s = set()
        t = set(self.s)
        t.add(4)
        return 1 if 4 in self.s else 0

    def p_set_inter(self, c):
        self.s = {1, 2}
        t = self.s.intersection({2, 3})
        t.add(9)
        return (1 if 9 in self.s else 0) + (10 if 2 in t else 0) + (100 if 1 in t else 0)

    def p_obj_alias(self, c):
        o = Other()
        p = o
        p.x = 3
        p.l.append(1)
        return o.x * 10 + len(o.l)

    def p_obj_two(self, c):
        o = Other()
        p = Other()
        p.x = 3
        p.l.append(1)
        return o.x * 10 + len(o.l)

    def p_obj_share(self, c):
        o = Other()
        p = Other()
        p.l = o.l
        p.l.append(1)
        return len(o.l)

    def p_obj_list(self, c):
        o = Other()
        p = Other()
        k = [o, p]
        k[0].x = 4
        return o.x * 10 + p.x

    def p_obj_field_share(self, c):
        o = Other()
        self.l = [1]
        o.l = self.l
        self.l.append(2)
        return len(o.l)

    def p_comp_shadow(self, c):
        i = 7
        a = [i for i in range(3)]
        return i * 10 + len(a)

    def p_comp_filter(self, c):
        a = [i for i in range(4) if i > 1]
        return len(a) * 100 + a[0]

    def p_comp_alias(self, c):
        self.ll = [[1], [2]]
        a = [m for m in self.ll]
        a[0].append(9)
        return len(self.ll[0])

    def p_for_var_after(self, c):
        for i in range(3):
            pass
        return i

    def p_mutate_while_iterating(self, c):
        a = [1, 2]
        y = 0
        for k in a:
            if len(a) < 4:
                a.append(5)
            y += 1
        return y

    def p_rebind_while_iterating(self, c):
        a = [1, 2]
        y = 0
        for k in a:
            a = [7]
            y += 1
        return y

    def p_enumerate(self, c):
        y = 0
        for i, v in enumerate([4, 5]):
            y = i * 10 + v
        return y

    def p_zip(self, c):
        y = 0
        for i, v in zip([4, 5], [1, 2]):
            y = i * 10 + v
        return y

    def p_comp_zip(self, c):
        a = [i + 10 * j for i, j in zip([1, 2, 3], [4, 5])]
        return a[0] * 100 + a[1] + 10000 * len(a)

    def p_comp_zip_if(self, c):
        a = [i for i, j in zip([1, 2, 3], [0, 5, 7, 9]) if j > 0]
        return a[0] * 10 + a[1] + 100 * len(a)

    def p_any_zip(self, c):
        a, b = [1, 2, 3], [3, 2]
        return (1 if any(x == y for x, y in zip(a, b)) else 0) + (10 if all(x < y for x, y in zip(a, b)) else 20)

    def p_any_zip_short(self, c):
        return 1 if any(x == y for x, y in zip([1, 2, 3], [4, 5])) else 2

    def q_zip_short_first(self, c):
        t = 0
        for a, b in zip([1, 2], [10, 20, 30]):
            t += 1
        return t

    def p_minmax(self, c):
        return min(3, 2) * 100 + max(4, 9) + abs(-1) * 1000

    def p_maxkey(self, c):
        self.d = {}
        self.d[3] = 7
        self.d[4] = 9
        return max(self.d, key=self.d.get)

    def p_bool_arith(self, c):
        y = True
        return 1 + (c == 1)

    def p_none(self, c):
        y = None
        if y is None:
            return 1
        return 2

    def p_opt(self, c):
        y = None
        if c == 1:
            y = 4
        return 1 if y is None else y

    def p_remove(self, c):
        a = [1, 2, 1]
        a.remove(1)
        return len(a) * 10 + a[0]

    def p_extend(self, c):
        self.l = [1]
        m = [2, 3]
        self.l.extend(m)
        m.append(4)
        return len(self.l)

    def p_repeat(self, c):
        a = [0] * 3
        a[1] = 5
        return a[0] * 10 + len(a)

    def p_repeat_nested(self, c):
        a = [[0]] * 2
        a[1].append(5)
        return len(a[0])

    def p_del_default(self, c):
        return self.dflt() * 10 + self.dflt(3)

    def dflt(self, k=2):
        return k

    def p_param_rebind(self, c):
        a = [1]
        self.reb(a)
        return len(a)

    def reb(self, m):
        m = [1, 2]
        m.append(1)

    def p_early_return_state(self, c):
        self.x = 0
        self.er(c)
        return self.x

    def er(self, c):
        if c == 1:
            self.x = 5
            return
        self.x = 8

    def p_nested_loop(self, c):
        y = 0
        for i in range(2):
            for j in range(2):
                self.x = i * 10 + j
                y += 1
        return y

    def p_loop_obj(self, c):
        o = Other()
        for i in range(2):
            o.x = i + 1
        return o.x

    def p_loop_new_obj(self, c):
        o = Other()
        k = o
        for i in range(2):
            k = Other()
            k.x = 3
        return o.x * 10 + k.x

    def p_loop_list_field(self, c):
        self.l = []
        for i in range(3):
            self.l.append(i)
        return len(self.l)

    def p_set_iter(self, c):
        self.s = {3}
        y = 0
        for v in self.s:
            y = v
        return y

    def p_dict_iter(self, c):
        self.d = {}
        self.d[2] = 4
        y = 0
        for k in self.d:
            y += self.d[k]
        return y

    def p_tuple(self, c):
        t = (1, 2)
        a, b = t
        return t[0] * 10 + b

    def p_int_trunc(self, c):
        return int(2.7) * 10 + int(-2.7)

    def p_round(self, c):
        return round(2.5) * 10 + round(3.5)

    def p_eq_list(self, c):
        return 1 if [1, 2] == [1, 2] else 0

    def p_ne_list(self, c):
        return 1 if [1, 2] == [1, 2, 3] else 0

    def p_in_listlist(self, c):
        return 1 if [1] in [[2], [1]] else 0

    def p_not_empty(self, c):
        a = []
        return 1 if not a else 2

    def p_raise_branch(self, c):
        if c == 2:
            raise ValueError('x')
        return 3

    def p_try(self, c):
        y = 1
        try:
            y = 2
        except IndexError:
            y = 3
        return y

    def p_break_alias(self, c):
        self.ll = [[1], [2]]
        m = [5]
        for k in self.ll:
            m = k
            break
        m.append(1)
        return len(self.ll[0]) * 10 + len(m)

    def p_loop_field_alias_before(self, c):
        self.l = [1]
        m = self.l
        for i in range(2):
            self.l = [2, 2, 2]
        m.append(1)
        return len(self.l) * 10 + len(m)

    def p_loop_alias_stale(self, c):
        self.l = [1]
        m = self.l
        for i in range(2):
            self.l.append(3)
        return len(m)

    def p_ret_field(self, c):
        self.l = [1]
        m = self.getl()
        m.append(4)
        return len(self.l)

    def getl(self):
        return self.l

    def p_pass_field(self, c):
        self.l = [1]
        self.grow(self.l, 3)
        return len(self.l)

    def p_chained_assign(self, c):
        a = b = [1]
        a.append(2)
        return len(b)

    def p_chained_field(self, c):
        self.l = m = [1]
        m.append(2)
        return len(self.l)

    def p_cond_list(self, c):
        self.l = [1]
        m = self.l if c == 1 else [4]
        m.append(2)
        return len(self.l)

    def p_or_value(self, c):
        y = 0 or 5
        return y

    def p_and_value(self, c):
        y = 3 and 5
        return y

    def p_lambda_capture(self, c):
        y = 1
        f = lambda k: k + y
        y = 10
        return f(1)

    # ---- loops with invariants (LOOPS)
    def q_sum(self, c):
        t = 0
        for i in range(4):
            t += i
        return t

    def q_break_else(self, c):
        r = 0
        for i in [1, 2, 3]:
            r = i
            if i == 2:
                break
        else:
            r = 9
        return r

    def q_else_runs(self, c):
        r = 0
        for i in [1, 2, 3]:
            r = i
        else:
            r += 10
        return r

    def q_while(self, c):
        i = 0
        n = 0
        while i < 7:
            i += 2
            n += 1
        return i * 10 + n

    def q_grow_in_loop(self, c):
        a = [1, 2]
        n = 0
        for x in a:
            n += 1
            if n < 4:
                a.append(x)
        return n

    def q_shrink_in_loop(self, c):
        a = [1, 2, 3, 4]
        n = 0
        for x in a:
            n += 1
            a.pop()
        return n

    def q_grow_field_in_loop(self, c):
        self.l = [1, 2]
        n = 0
        for x in self.l:
            n += 1
            if n < 4:
                self.l.append(x)
        return n

    def q_grow_in_helper(self, c):
        self.l = [1, 2]
        n = 0
        for x in self.l:
            n += 1
            if n < 4:
                self.grow(self.l, x)
        return n

    def q_enum_assign(self, c):
        a = [5, 6, 7]
        for i, x in enumerate(a):
            a[i] = x + 1
            x = 0
        return a[0] + a[2]

    def q_loop_var(self, c):
        for i in range(3):
            i = 10
        return i

    def q_loop_var_after(self, c):
        i = 5
        for i in range(2, 4):
            pass
        return i

    def q_zero_iter_var(self, c):
        i = 5
        for i in range(0):
            pass
        return i

    def q_range_fixed(self, c):
        n = 3
        k = 0
        for i in range(n):
            n = 10
            k += 1
        return k + n

    def q_range_step(self, c):
        k = 0
        for i in range(1, 8, 3):
            k += 1
        return k

    def q_range_down(self, c):
        k = 0
        for i in range(5, 0, -1):
            k += 1
        return k

    def q_heap_loop(self, c):
        a = Other()
        b = Other()
        b.x = 4
        for i in range(3):
            a.x += 1
        return a.x * 10 + b.x

    def q_heap_new(self, c):
        o = Other()
        first = o
        for i in range(2):
            o = Other()
            o.x = i + 1
        return first.x * 10 + o.x

    def q_alias_move(self, c):
        a = [1]
        b = [2]
        m = a
        for i in range(2):
            m.append(i)
            m = b
        return len(a) * 10 + len(b)

    def q_field_alias_move(self, c):
        self.ll = [[], []]
        m = self.ll[0]
        for i in range(2):
            m.append(i)
            m = self.ll[1]
        return len(self.ll[0]) * 10 + len(self.ll[1])

    def q_nested(self, c):
        t = 0
        for i in range(3):
            for j in range(2):
                t += 1
        return t

    def q_nested_break(self, c):
        t = 0
        for i in range(3):
            for j in range(5):
                if j == 1:
                    break
                t += 1
        return t

    def q_continue(self, c):
        t = 0
        for i in range(4):
            if i == 2:
                continue
            t += 1
        return t

    def q_return_in(self, c):
        for i in range(4):
            if i == 2:
                return i
        return 9

    def q_zip_short(self, c):
        t = 0
        for a, b in zip([1, 2, 3], [10, 20]):
            t += 1
        return t

    def q_append_elem(self, c):
        self.ll = []
        row = [0]
        for i in range(2):
            row = [i]
            self.ll.append(row)
        return self.ll[0][0] * 10 + self.ll[1][0]

    def q_append_same(self, c):
        self.ll = []
        row = [0]
        for i in range(2):
            row[0] = i
            self.ll.append(row)
        return self.ll[0][0] * 10 + self.ll[1][0]

    def q_set_in_loop(self, c):
        s = set()
        for i in range(4):
            s.add(i // 2)
        return len(s)

    def q_dict_in_loop(self, c):
        d = {}
        for i in range(4):
            d[i // 2] = i
        return d[0] * 10 + d[1]

    def q_while_flag(self, c):
        go = True
        n = 0
        while go:
            n += 1
            if n == 3:
                go = False
        return n

    def q_while_cond_effect(self, c):
        n = 0
        while self.truthy(2 - self.n):
            n += 1
        return n * 10 + self.n

    def q_objects_in_list(self, c):
        os = [Other(), Other()]
        for o in os:
            o.x = 3
        return os[0].x + os[1].x

    def q_same_object_twice(self, c):
        o = Other()
        os = [o, o]
        for p in os:
            p.x += 1
        return o.x


    # ---- calls checked against contracts (CONTRACTS)
    def make(self, k):
        o = Other()
        o.x = k
        return o

    def put(self, o, k):
        o.x = k

    def fill(self, k):
        self.l = [k, k]
        return self.l

    def keep(self, m):
        self.l = m

    def count(self, k):
        self.n += 1
        return self.n + k

    def check(self, k):
        if k > 5:
            raise ValueError
        return k

    def q_call_make(self, c):
        a = self.make(3)
        b = self.make(4)
        return a.x * 10 + b.x

    def q_call_make_old(self, c):
        a = Other()
        a.x = 8
        b = self.make(4)
        return a.x * 10 + b.x

    def q_call_make_list(self, c):
        a = [self.make(1)]
        a.append(self.make(2))
        a[0].x = 5
        return a[0].x * 10 + a[1].x

    def q_call_put(self, c):
        a = Other()
        b = Other()
        b.x = 2
        self.put(a, 7)
        return a.x * 10 + b.x

    def q_call_put_same(self, c):
        a = Other()
        b = a
        self.put(a, 7)
        return b.x

    def q_call_fill(self, c):
        self.l = [1]
        m = self.l
        self.fill(4)
        return len(m) * 10 + len(self.l)

    def q_call_keep(self, c):
        a = [1]
        self.keep(a)
        a.append(2)
        return len(self.l)

    def q_call_keep_copy(self, c):
        a = [1]
        self.keep(list(a))
        a.append(2)
        return len(self.l) * 10 + len(a)

    def q_call_count(self, c):
        self.n = 0
        return self.count(1) * 10 + self.count(2)

    def q_call_check(self, c):
        r = self.check(2)
        return r

    def q_call_loop_make(self, c):
        a = []
        for i in range(3):
            a.append(self.make(i))
        return a[0].x + a[1].x * 10 + a[2].x * 100


LOOPS = {
    'q_sum': {0: ['2 * t == _k * (_k - 1)']},
    'q_break_else': {0: ['r == _k', '_k <= 1']},
    'q_else_runs': {0: ['r == _k']},
    'q_while': {0: ['i == 2 * n', 'n <= 4']},
    'q_grow_in_loop': {0: ['n == _k']},
    'q_shrink_in_loop': {0: ['n == _k']},
    'q_grow_field_in_loop': {0: ['n == _k']},
    'q_grow_in_helper': {0: ['n == _k']},
    'q_enum_assign': {0: ['len(a) == 3', 'all(a[j] == 6 + j for j in range(_k))', 'all(a[j] == 5 + j for j in range(_k, 3))']},
    'q_loop_var': {0: ['implies(_k > 0, i == 10)']},
    'q_loop_var_after': {0: ['i == ite(_k == 0, 5, 1 + _k)']},
    'q_zero_iter_var': {0: ['i == 5']},
    'q_range_fixed': {0: ['k == _k', 'n == ite(_k == 0, 3, 10)']},
    'q_range_step': {0: ['k == _k']},
    'q_range_down': {0: ['k == _k']},
    'q_heap_loop': {0: ['a.x == _k', 'b.x == 4', 'not same(a, b)']},
    'q_heap_new': {0: ['first.x == 0', 'o.x == _k', 'implies(_k > 0, not same(o, first))']},
    'q_alias_move': {0: ['len(a) == ite(_k > 0, 2, 1)', 'len(b) == ite(_k > 1, 2, 1)']},
    'q_field_alias_move': {0: ['len(self.ll) == 2', 'len(self.ll[0]) == ite(_k > 0, 1, 0)', 'len(self.ll[1]) == ite(_k > 1, 1, 0)']},
    'q_nested': {0: ['t == 2 * _k'], 1: ['t == 2 * _k0 + _k']},
    'q_nested_break': {0: ['t == _k'], 1: ['t == _k0 + _k', '_k <= 1']},
    'q_continue': {0: ['t == ite(_k > 2, _k - 1, _k)']},
    'q_return_in': {0: ['_k <= 2']},
    'q_zip_short': {0: ['t == _k']},
    'q_zip_short_first': {0: ['t == _k']},
    'q_append_elem': {0: ['len(self.ll) == _k', 'all(len(self.ll[j]) == 1 and self.ll[j][0] == j for j in range(_k))']},
    'q_append_same': {0: ['len(self.ll) == _k', 'len(row) == 1', 'all(len(self.ll[j]) == 1 and self.ll[j][0] == j for j in range(_k))']},
    'q_set_in_loop': {0: ['all(iff(v in s, 0 <= v and 2 * v < _k) for v in ints())']},
    'q_dict_in_loop': {0: ['all(iff(v in d, 0 <= v and 2 * v < _k) for v in ints())', 'all(implies(0 <= v and 2 * v < _k, d[v] == ite(2 * v + 1 < _k, 2 * v + 1, 2 * v)) for v in ints())']},
    'q_while_flag': {0: ['iff(go, n < 3)', 'n <= 3']},
    'q_while_cond_effect': {0: ['self.n == n', 'n <= 2']},
    'q_objects_in_list': {0: ['len(os) == 2', 'all(os[j].x == 3 for j in range(_k))', 'not same(os[0], os[1])']},
    'q_same_object_twice': {0: ['o.x == _k', 'len(os) == 2', 'same(os[0], o)', 'same(os[1], o)']},
    'q_call_loop_make': {0: ['len(a) == _k', 'all(a[j].x == j for j in range(_k))', 'all(isnew(a[j]) for j in range(_k))']},
}

CONTRACTS = {
    'make': dict(params={'k': 'int'}, result='other', allocs=True, ensures=['isnew(result)', 'result.x == k']),
    'put': dict(params={'o': 'other', 'k': 'int'}, modifies=['o.x'], ensures=['o.x == k']),
    'fill': dict(params={'k': 'int'}, modifies=['self.l'], ensures=['len(self.l) == 2', 'self.l[0] == k']),
    'keep': dict(params={'m': 'list'}, modifies=['self.l'], captures=['m'], ensures=['same(self.l, m)']),
    'count': dict(params={'k': 'int'}, result='int', modifies=['self.n'], ensures=['self.n == old(self.n) + 1', 'result == self.n + k']),
    'check': dict(params={'k': 'int'}, result='int', raises='k > 5', ensures=['result == k']),
}
