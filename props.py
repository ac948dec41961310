"""What each check claims: level, bounded parts, assumptions.  The functions under contract of a property are those whose
contract lists it, plus every contract they rely on."""
COMMON = ['machine numbers are mathematical: Python int is unbounded, float is treated as an exact real',
          'the verification-condition generator /verif/engine (Python semantics of the subset it accepts) and z3/cvc5 are trusted',
          'the normalisation drops docstrings, comments, type annotations and print/debug output only']
# bounded: functions of the property that no discharged contract covers; they are decided by the replay driver only
P = {
    'C01': dict(level='proof', bounded=[]),
    'C02': dict(level='proof', bounded=[]),
    'C03': dict(level='proof', bounded=[]),
    'C04': dict(level='proof', bounded=[]),
    'C05': dict(level='proof', bounded=[]),
    'C06': dict(level='proof', bounded=[]),
    'C07': dict(level='proof', bounded=[]),
    'C08': dict(level='proof', bounded=[]),
    'C09': dict(level='proof', bounded=[]),
    'C10': dict(level='proof', bounded=[]),
    'C11': dict(level='proof', bounded=[]),
    'C12': dict(level='proof', bounded=[]),
    'C13': dict(level='proof', bounded=[]),
    'C14': dict(level='proof', bounded=[]),
    'C15': dict(level='proof', bounded=[]),
    'C16': dict(level='proof', bounded=[]),
    'C17': dict(level='proof', bounded=[]),
    'C18': dict(level='proof', bounded=[]),
    'C19': dict(level='proof', bounded=[]),
    'C20': dict(level='proof', bounded=[]),
    'C21': dict(level='proof', bounded=['subproblem_params of the tree classifiers and set_params before fit (known findings): driver only']),
    'C22': dict(level='proof', bounded=['fitting the same estimator again on other data (known finding): driver only']),
}
