NOTES = {
'C01': '''
The parser is checked as a recursive descent on a text of any length: each
function (`_parse_element_`, `_parse_group_`, ...) against the contract of the
grammar rule it implements, with the recursion replaced by that contract
(nesting to any depth by induction).  The element table is the constant data of
the module.  Formulas as whole texts are a bounded run-time check with an
expansion of its own as oracle.''',
'C02': '''
`molar_mass` is any positive function (its contract is C01); dictionaries of
any number of compounds.''',
'C03': '''
`element_mass_fraction` is any function with values from 0 to 1 (contract:
C01).''',
'C04': '''
The integral relations are proved by the fundamental theorem: the engine
differentiates the terms it got by executing Cp/H/S (`h.derivative`), for a
record with any number of terms of any exponents (the exponents -1 and 0 that
give logarithms are cases); a phase has any number of records, a phase's
functions are checked against the contracts of the records (`Record` in
c04_heat.py), found where the records are kept (`_Cp_records`; another
representation makes these contracts undecided).  The magnetic contributions
are proved with Tc, beta0 and p any positive numbers.  The shipped library is
a bounded check of the same relations by quadrature.''',
'C05': '''Uses the phase of C04 with any records.''',
'C06': '''Any compound string (name and phase any texts), any molar mass.''',
'C07': '''
The work is done by jsonpickle through reflection over arbitrary object graphs,
which no contract on the code here decides.  What the code here does is proved
under an assumed contract of jsonpickle (`decode` of what `encode` returned
for an object is its copy) and of files (they hold what was written to them):
`written` stands these in and has any object, any path, and an earlier text in
the file.  A text of any other form (e.g. re-formatted JSON) makes this
contract undecided.  The same property of real objects is a bounded check:
random graphs of objects with shared parts, and one object of each kind of the
library.  The level is `exploration`, for the bounded part carries the weight.
The check found that objects were written the way they print: with the keys in
another order than the one in which the references between parts are numbered
(a model came back with the wrong account types), and as a table for the
classes that print as one; see the repairs below.''',
'C08': '''
Materials with any number of compounds, any overlap of two materials; histories
are covered by the representation (any vector of masses satisfying the
invariant is a possible state, and every operation is proved to keep it).''',
'C09': '''As C08.''',
'C10': '''As C08 with water and the density of the solids.''',
'C11': '''
The enthalpy of a compound is any function H(compound, T) (contract: C06) times
mass; the temperature for an enthalpy (`_calculate_T`) is replaced by its
contract (the temperature at which the enthalpy is the one given); that
contract is proved of the real secant iteration for compounds with an enthalpy
linear in T, and sampled at run time for the real ones (absolute tolerance
1e-5 kWh).  Packages of materials marked as coal cannot be created at all
(known finding).''',
'C12': '''As C11 for flow rates (the same contract source, pkg.py and
thermo_pkg.py, on the other class).  Streams of materials marked as coal are
proved with the dry ash free and ash enthalpies replaced by their contracts
(C24 and C06); adding and extracting single compounds of coal streams does not
conserve the enthalpy on the current tree (four known findings).''',
'C13': '''All four kinds of materials; assays of any length.''',
'C14': '''
Ledgers of any number of transactions on any accounts: the sums the reports are
made of are proved, and so are the table of the income statement (for any
accounts) and that a statement asked of the ledger, printed or as text, is the
report of this ledger, period and component; the table of the balance sheet
(which groups the accounts in two columns) is compared with an oracle at run
time, bounded, and so are statements asked for again after changes.''',
'C15': '''
`_perform_year_end_*` proved for ledgers of any length and any chart of
accounts; the dispatch at year ends for any clock and year end month.  Two known
findings (below).''',
'C16': '''
Amount, rate, duration and month are any numbers; `pow` is an uninterpreted
positive function with its functional equation.  `month` is the inductive step
from the state after k months, `paid_back` the conclusion.  `first_months` says
the same of the first three payments through the public interface only.''',
'C17': '''Dates are numbers with a linear order; a relativedelta/timedelta of n
units is an opaque span; the calendar itself is outside (run-time cases with
the real one).''',
'C18': '''
Trees: paths and lookups are proved for one node with any children against the
contract of the recursive call (any depth by induction); whole trees are a
bounded run-time check.''',
'C19': '''
Colebrook's equation is solved by scipy's `root`; its contract (a zero of the
function it is given, or a failure) is assumed, the equation passed to it and
the result are proved; that it converges in the stated range is sampled.''',
'C20': '''Every fluid: the properties are positive functions of T.''',
'C21': '''
Validation uses the voluptuous/cerberus validator of the package, replaced by
its contract (validator.py); the schemas of the models are checked at run time
against real states, bounded.  Fitting (numpy.polyfit) is sampled.  The
materials the package ships (`gases`, `liquids`, ... ) are each built for real
and compared with their own documented data, bounded (`shipped_materials`).''',
'C22': '''Any number of compounds, any pure-component models; that the
mixtures' default gas models find the right gas for each compound is a
bounded check over the shipped gases (`gases_of_mixtures`).''',
'C23': '''`exp` and `log` are interpreted by their functional equations.''',
'C24': '''
The Einstein function is differentiated symbolically; positivity by the signs
of the terms.''',
'C25': '''Lists of any number of transactions; sorting is any permutation that
is ordered. Asked of the ledger (transaction_list through Report.render) the
table laid out is the same list; tabulate and print are recorded.''',
'C26': '''By induction over the tree: the rows of an account are its own and, by the
same contract (which replaces the recursive call), those of each member once,
for any number of members in any order. render is proved for every format with
recorders for tabulate, csv, open, print and StringIO; a bounded check writes
real files of charts with up to 12 more accounts and reads them back.''',
}
