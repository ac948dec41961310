from engine.vals import *
from engine.vc import Static


def register(C):
    C.cls('RunningStat', 'heap', {'num_data_': INT, 'old_mean_': REAL, 'new_mean_': REAL, 'old_std_': REAL,
                                  'new_std_': REAL})
    C.cls('Parameter', 'heap', {'name_': STR, 'values_': LIST(INT), 'scores_': LIST(REF('RunningStat')),
                                'final_scores_': LIST(REAL), 'counts_': LIST(INT), 'c_fac_': REAL,
                                'current_index_': INT, 'total_counts_': INT, 'explore_count_': INT,
                                'switch_flag_': INT, 'mt_': Static('opaque', what='random.Random')})
    # sequence of pushed values, as a ghost: mean and sum of squared deviations
    C.rec('ssum', {'xs': LIST(REAL)}, 'i', 'xs[i]', REAL)
    C.rec('ssq', {'xs': LIST(REAL)}, 'i', 'xs[i] * xs[i]', REAL)
    C.pred('stat_ok', {'s': REF('RunningStat'), 'xs': LIST(REAL), 'n': INT},
           '''s.num_data_ == n and (n == 0 or (s.new_mean_ * n == ssum(xs, n) and s.old_mean_ == s.new_mean_
              and s.old_std_ + s.new_mean_ * ssum(xs, n) == ssq(xs, n) and (n == 1 or s.new_std_ == s.old_std_)))''')
    C.fn('RunningStat.__init__', params={}, modifies=['self.num_data_', 'self.old_mean_', 'self.new_mean_', 'self.old_std_', 'self.new_std_'],
         ensures=['self.num_data_ == 0'], props=['C18'])
    C.fn('RunningStat.push', params={'x': REAL}, ghosts={'xs': LIST(REAL), 'n': INT},
         requires=['self.num_data_ >= 0', 'self.num_data_ == 0 or self.old_mean_ == self.new_mean_',
                   'self.num_data_ != 1 or self.old_std_ == 0',
                   'self.num_data_ <= 1 or (self.new_std_ >= 0 and self.new_std_ == self.old_std_)'],
         modifies=['self.num_data_', 'self.old_mean_', 'self.new_mean_', 'self.old_std_', 'self.new_std_'],
         asserts=['implies(n >= 0, ssum(xs, n + 1) == ssum(xs, n) + xs[n])', 'implies(n >= 0, ssq(xs, n + 1) == ssq(xs, n) + xs[n] * xs[n])',
                  'implies(hist(xs, n, x, self), n == 0 or self.new_mean_ * (n + 1) == ssum(xs, n + 1))',
                  'implies(hist(xs, n, x, self), n == 0 or old(self.new_mean_) * self.new_mean_ * (n + 1) == old(self.new_mean_) * ssum(xs, n + 1))',
                  'self.num_data_ == 1 or self.new_mean_ * self.num_data_ == old(self.new_mean_) * old(self.num_data_) + x',
                  'self.num_data_ == 1 or (x - self.new_mean_) * self.num_data_ == (x - old(self.new_mean_)) * old(self.num_data_)',
                  'self.num_data_ == 1 or (x - old(self.new_mean_)) * (x - self.new_mean_) * self.num_data_ == (x - old(self.new_mean_)) * (x - old(self.new_mean_)) * old(self.num_data_)',
                  'self.num_data_ == 1 or (x - old(self.new_mean_)) * (x - self.new_mean_) >= 0'],
         ensures=['self.num_data_ == old(self.num_data_) + 1', 'self.old_mean_ == self.new_mean_',
                  'self.new_mean_ * self.num_data_ == ite(old(self.num_data_) == 0, 0.0, old(self.new_mean_) * old(self.num_data_)) + x',
                  'self.num_data_ != 1 or self.old_std_ == 0', 'self.num_data_ <= 1 or (self.new_std_ >= 0 and self.new_std_ == self.old_std_)',
                  'implies(hist(xs, n, x, self), stat_ok(self, xs, n + 1))'], props=['C18'])
    C.pred('hist', {'xs': LIST(REAL), 'n': INT, 'x': REAL, 's': REF('RunningStat')},
           'n >= 0 and n < len(xs) and old(stat_ok(s, xs, n)) and xs[n] == x')
    C.fn('RunningStat.clear', params={}, modifies=['self.num_data_'], ensures=['self.num_data_ == 0'], props=['C18'])
    C.fn('RunningStat.num_data_values', params={}, ensures=['result == self.num_data_'], result=INT, props=['C18'])
    C.fn('RunningStat.mean', params={}, ensures=['result == ite(self.num_data_ > 0, self.new_mean_, 0.0)'], result=REAL, props=['C18'])
    C.fn('RunningStat.variance', params={}, ensures=['result == ite(self.num_data_ > 1, self.new_std_ / (self.num_data_ - 1), 0.0)'],
         result=REAL, props=['C18'])
    C.fn('RunningStat.standard_deviation', params={}, requires=['self.num_data_ <= 1 or self.new_std_ >= 0'],
         ensures=['result >= 0', 'result * result == ite(self.num_data_ > 1, self.new_std_ / (self.num_data_ - 1), 0.0)'],
         result=REAL, props=['C18'])
    # representation invariant of Parameter
    C.pred('par_ok', {'p': REF('Parameter')},
           """len(p.scores_) == len(p.values_) and len(p.final_scores_) == len(p.values_) and len(p.counts_) == len(p.values_)
              and all(p.counts_[i] >= 0 and p.scores_[i].num_data_ == p.counts_[i]
                      and (p.scores_[i].num_data_ == 0 or p.scores_[i].new_mean_ == p.scores_[i].old_mean_)
                      and (p.scores_[i].num_data_ <= 1 or (p.scores_[i].new_std_ >= 0 and p.scores_[i].new_std_ == p.scores_[i].old_std_))
                      and (p.scores_[i].num_data_ != 1 or p.scores_[i].old_std_ == 0)
                      for i in range(len(p.values_)))
              and all(p.scores_[i] != p.scores_[j] for i in range(len(p.values_)) for j in range(len(p.values_)) if i != j)
              and p.total_counts_ >= 0""")
    C.fn('Parameter.__init__', params={'c_fac': REAL, 'name': STR, 'seed': INT},
         modifies=['self.values_', 'self.scores_', 'self.final_scores_', 'self.counts_', 'self.c_fac_', 'self.current_index_',
                   'self.total_counts_', 'self.explore_count_', 'self.switch_flag_'],
         ensures=['par_ok(self)', 'len(self.values_) == 0', 'self.c_fac_ == c_fac', 'self.current_index_ == 0',
                  'self.explore_count_ == 10', 'self.switch_flag_ == 1', 'self.total_counts_ == 0'], props=['C19'])
    C.fn('Parameter.set_switch_flag', params={'value': INT}, modifies=['self.switch_flag_'],
         ensures=['self.switch_flag_ == value'], props=['C19'])
    C.fn('Parameter.set_explore_count', params={'value': INT}, modifies=['self.explore_count_'],
         ensures=['self.explore_count_ == value'], props=['C19'])
    C.fn('Parameter.add_value', params={'value': INT}, requires=['par_ok(self)'], allocs=True,
         modifies=['self.values_', 'self.scores_', 'self.final_scores_', 'self.counts_'],
         ensures=['par_ok(self)', 'len(self.values_) == old(len(self.values_)) + 1',
                  'self.values_[len(self.values_) - 1] == value', 'isnew(self.scores_[len(self.values_) - 1])', 'self.counts_[len(self.values_) - 1] == 0',
                  'self.final_scores_[len(self.values_) - 1] == 5',
                  'all(self.values_[i] == old(self.values_)[i] and self.counts_[i] == old(self.counts_)[i] and self.scores_[i] == old(self.scores_)[i] and self.final_scores_[i] == old(self.final_scores_)[i] for i in range(old(len(self.values_))))'],
         props=['C19'])
    C.pred('par_ix', {'p': REF('Parameter'), 'index': OPT(INT)}, 'ite(is_none(index), p.current_index_, the(index))', ret=INT)
    C.fn('Parameter.adjust_score', params={'score': REAL, 'index': OPT(INT)},
         requires=['par_ok(self)', 'par_ix(self, index) >= 0', 'par_ix(self, index) < len(self.values_)'],
         modifies=['self.counts_', 'self.total_counts_', 'self.final_scores_', 'RunningStat.num_data_', 'RunningStat.old_mean_',
                   'RunningStat.new_mean_', 'RunningStat.old_std_', 'RunningStat.new_std_'],
         ensures=['par_ok(self)', 'self.total_counts_ == old(self.total_counts_) + 1',
                  'self.counts_[par_ix(self, index)] == old(self.counts_[par_ix(self, index)]) + 1',
                  'all(self.counts_[i] == old(self.counts_[i]) and self.final_scores_[i] == old(self.final_scores_[i]) for i in range(len(self.values_)) if i != par_ix(self, index))',
                  'self.final_scores_[par_ix(self, index)] == self.scores_[par_ix(self, index)].new_mean_ + self.c_fac_ / self.counts_[par_ix(self, index)]',
                  'self.scores_[par_ix(self, index)].new_mean_ * self.counts_[par_ix(self, index)] == ite(old(self.counts_[par_ix(self, index)]) == 0, 0.0, old(self.scores_[par_ix(self, index)].new_mean_)) * old(self.counts_[par_ix(self, index)]) + score',
                  'all(r == self.scores_[par_ix(self, index)] or (r.num_data_ == old(r.num_data_) and r.new_mean_ == old(r.new_mean_) and r.old_mean_ == old(r.old_mean_) and r.new_std_ == old(r.new_std_) and r.old_std_ == old(r.old_std_)) for r in refs("RunningStat"))'],
         props=['C19'])
    C.fn('Parameter.get_best_value', params={}, requires=['par_ok(self)', 'len(self.values_) > 0'],
         modifies=['self.explore_count_', 'self.current_index_'],
         ensures=['0 <= self.current_index_', 'self.current_index_ < len(self.values_)', 'result == self.values_[self.current_index_]',
                  'self.explore_count_ == ite(old(self.explore_count_) > 0, old(self.explore_count_) - 1, old(self.explore_count_))',
                  'implies(old(self.explore_count_) > 0 and len(self.values_) == 2, self.current_index_ == ite(bitand(self.switch_flag_, old(self.explore_count_)) > 0, 1, 0))',
                  'implies(old(self.explore_count_) <= 0 and any(self.counts_[i] < 4 for i in range(len(self.values_))), self.counts_[self.current_index_] < 4)',
                  """implies(old(self.explore_count_) <= 0 and all(self.counts_[i] >= 4 for i in range(len(self.values_))),
                     all(self.final_scores_[self.current_index_] + stddev(self.scores_[self.current_index_]) / 10 >= self.final_scores_[i] for i in range(len(self.values_))))"""],
         loops={0: {'inv': ['0 <= best_index', 'best_index < len(self.values_)', 'all(self.final_scores_[j] <= self.final_scores_[best_index] for j in range(_k))', 'len(bucket) == 0']},
                1: {'inv': ['0 <= best_index', 'best_index < len(self.values_)',
                            'all(0 <= bucket[j] and bucket[j] < _k and self.final_scores_[bucket[j]] + stddev(self.scores_[bucket[j]]) / 10 >= self.final_scores_[best_index] for j in range(len(bucket)))',
                            'implies(_k > best_index, len(bucket) > 0)', 'len(bucket) >= 0']}},
         result=INT, props=['C19'])
    C.pred('stddev', {'s': REF('RunningStat')}, 'sqrt(ite(s.num_data_ > 1, s.new_std_ / (s.num_data_ - 1), 0.0))', ret=REAL)
