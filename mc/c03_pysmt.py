"""C03: the pysmt backend against the integer model and the concrete types."""
import smteval
import symback
from hwtypes import SMTBit, SMTBitVector, SMTSIntVector, SMTUIntVector

PROP = 'C03'
SPACE = {
    'quick': 'all assignments of x op y at widths 1-5, boundary assignments at 15 widths to 128; the same 10 values at 11 widths in turn in one process, 2 orders, '
             '5 families (2 user ones of one name); all constants in every '
             'operand position at widths 1-4 and boundary constants at 8, 32, 64; every slice, index, extension, '
             'concatenation, conversion, assignment, ite and adc at widths 1-5 and at 5 wide widths; all expressions of '
             '2 operators over 2 variables and a constant at widths 1-3',
    'thorough': 'as quick with operators and structure at widths 1-6, boundary assignments at every width to 130, '
                'constants to width 5, programs to width 4',
}
ASSUMPTIONS = ['terms are evaluated by mc/smteval.py (SMT-LIB semantics on ints), not by a solver']
be = symback.Backend('pysmt', SMTBitVector, SMTUIntVector, SMTSIntVector, SMTBit, smteval.compile_term,
                     lambda v: v.value.symbol_name(), rotate_by='int', reflected=True)


def jobs(tier):
    return symback.all_jobs(be, tier, 'pysmt')
