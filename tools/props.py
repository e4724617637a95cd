NB = 'Not built yet.'
ALL = ['inputs', 'histories']

prop('C01', 'Stoichiometry follows the chemical formula',
     'For every well-formed chemical formula - elements with optional '
     'positive integer subscripts, groups in parentheses with multipliers '
     'nested to any depth, and an optional dotted part with a multiplier '
     '(".2H2O") - the element counts, the set of elements, the molar mass '
     'and the element mass fractions are those obtained by expanding the '
     'formula and adding each element as often as it occurs. An element '
     'that does not occur counts zero, and the mass fractions of all '
     'elements add up to one. A bracketed phase suffix and surrounding '
     'white space do not change any of them.',
     ['inputs'], 'every formula the grammar accepts, nested to any depth',
     'The tests look at a handful of formulas; nesting depth, repeated '
     'elements and multipliers combine without limit.',
     [CH + 'stoichiometry.py'],
     [('Element/Group/Compound.count', CH + 'stoichiometry.py:140-330'),
      ('molar_mass, element_mass_fraction', CH + 'stoichiometry.py')])

prop('C02', 'Mass and amount conversions are inverse and fractions sum to one',
     'Converting a mass of a compound to an amount and back, or an amount to '
     'a mass and back, returns the original value, and both conversions are '
     'proportional. For any set of compounds with a positive total the '
     'amount (mass) fractions computed from masses (amounts) sum to one and stay in the proportions '
     'of the individual amounts (masses).',
     ['inputs'], 'every mass/amount and every dictionary of compounds',
     'Tests use a few fixed masses and compounds.',
     [CH + 'stoichiometry.py'],
     [('amount/mass/amounts/masses/*_fractions', CH + 'stoichiometry.py')])

prop('C03', 'Converting a compound conserves the mass of the element',
     'Converting a mass of one compound to the equivalent mass of another '
     'compound with respect to an element yields a mass of the target that '
     'contains exactly as much of that element as the source mass did; '
     'converting back returns the original mass, and nothing is produced '
     'when the target does not contain the element.',
     ['inputs'], 'every mass, source, target and element',
     'Tests check single numeric examples.',
     [CH + 'stoichiometry.py'],
     [('convert_compound', CH + 'stoichiometry.py')])

prop('C04', 'Enthalpy and entropy are the integrals of the heat capacity',
     'For a phase with any number of contiguous heat-capacity records '
     'starting at the reference temperature, each with any coefficients and '
     'exponents: Cp is the sum of c*T^e; between any two temperatures '
     'covered by a record the enthalpy difference equals the integral of Cp '
     'and the entropy difference equals the integral of Cp/T; above the last '
     'record the heat capacity stays at its last value and enthalpy and '
     'entropy continue accordingly; apart from the magnetic contribution '
     'they equal the phase\'s reference values at the reference temperature. '
     'The magnetic contributions obey the same integral relations on both '
     'sides of the critical temperature and are continuous there.',
     ['inputs'], 'every number of records, coefficient, exponent, range and '
     'temperature', 'Tests evaluate library compounds at a few temperatures; '
     'a record with an unusual exponent is never tried.',
     [CH + 'thermochemistry.py'],
     [('CpRecord.Cp/H/S, Phase.Cp/H/S', CH + 'thermochemistry.py'),
      ('Phase.Cp_mag/H_mag/S_mag/G_mag', CH + 'thermochemistry.py')])

prop('C05', 'Gibbs energy equals H - T*S',
     'For every phase of every compound and every temperature the Gibbs free energy equals enthalpy minus '
     'absolute temperature times entropy, per compound and per requested '
     'mass.', ['inputs'], 'every phase, temperature and mass',
     'Tests sample a few compounds.', [CH + 'thermochemistry.py'],
     [('Phase.G, Compound.G, module G', CH + 'thermochemistry.py')])

prop('C06', 'Thermochemistry functions scale with mass and reject unknowns',
     'The heat capacity, enthalpy, entropy and Gibbs energy of a mass of a '
     'compound are the molar values of the requested phase at the absolute '
     'temperature, divided by the molar mass, converted from joule to '
     'kilowatt-hour and multiplied by the mass. A compound or phase without '
     'data raises an error instead of returning a number.',
     ['inputs'], 'every compound string, temperature and mass',
     'Tests use a few compound strings.', [CH + 'thermochemistry.py'],
     [('Cp/H/S/G and _finalise_result_', CH + 'thermochemistry.py')])

prop('C07', 'Written objects read back equal',
     'An auxi object written to a file with write and read back with read is '
     'an object of the same class with the same attributes - numbers, texts, '
     'dates, enumerations, numpy arrays, lists, tuples, dictionaries with '
     'texts as keys, and other auxi objects - in which the same parts are '
     'shared, whatever else the class does (e.g. how it prints). Writing '
     'leaves the object unchanged and replaces all the file held before. '
     'Loading a folder of thermochemical data files gives exactly the '
     'compounds that were written to it.',
     ['inputs'], 'every object of a class that derives from Object',
     'Tests write one polynomial model.',
     ['auxi/core/objects.py', CH + 'thermochemistry.py'],
     [('Object.write, Object.read', 'auxi/core/objects.py'),
      ('write_compound_to_auxi_file, load_data_auxi',
       CH + 'thermochemistry.py')],
     level='exploration',
     tech='contract of write and read discharged under an assumed contract '
     'of jsonpickle; bounded run-time check of the same contract on real '
     'objects',
     note='Deductive: write stores exactly what encodes the object, read '
     'returns what the last text written to the path decodes to, finished '
     'once (13 obligations, for every object and path), assuming that '
     'jsonpickle decodes what it encodes and that files hold what is written '
     'to them. Bounded: that this holds for the objects of the library and '
     'for random objects with shared parts, nested 3 deep, with the real '
     'jsonpickle and files.')

prop('C08', 'Chem packages conserve the mass of every compound',
     'Adding chem material packages or (compound, mass) pairs, scaling, '
     'extracting (a mass, a compound, part of a compound) and clearing '
     'change the mass of each compound by exactly the amount added, scaled '
     'or extracted, and total mass, assay, mass fractions and element masses '
     'always agree with the compound masses. Operations that return a new package leave '
     'their operands unchanged; in-place operations change only the package '
     'they are called on; a rejected operation (unknown compound, too large '
     'an extraction) changes nothing.',
     ALL, 'every material (any number of compounds), every vector of '
     'compound masses, every operand and every sequence of operations',
     'Tests use one three-assay material and fixed masses; the balance must '
     'hold for every number of compounds, overlap of two materials and '
     'order of operations.',
     [MAT + 'chem.py'],
     [('MaterialPackage.__add__/add_to/__mul__/extract/clear',
       MAT + 'chem.py:200-560')],
     [('compound_masses', 'mass of each compound of the material',
       MAT + 'chem.py')])

prop('C09', 'Size-distribution packages conserve mass per size class',
     'Adding psd material packages or (size class, mass) pairs, scaling, '
     'extracting (a mass, a size class, part of a size class) and clearing '
     'change the mass of each size class by exactly the amount added, scaled '
     'or extracted, and total mass, assay and mass fractions always agree '
     'with the class masses. Operands of operations that return a new '
     'package and packages that reject an operation stay unchanged.',
     ALL, 'every material (any number of size classes), all masses, all '
     'operands and sequences of operations',
     'Tests use one material and fixed masses.', [MAT + 'psd.py'],
     [('MaterialPackage.__add__/add_to/__mul__/extract/clear',
       MAT + 'psd.py')],
     [('size_class_masses', 'mass of each size class', MAT + 'psd.py')])

prop('C10', 'Slurry packages conserve solids and water separately',
     'Adding slurry packages, (size class, mass) pairs or ("H2O", mass) '
     'pairs, scaling and extracting change the mass of each size class and '
     'the mass of water by exactly the amount added, scaled or extracted. '
     'Reported total mass, solid fraction, volumes and density follow from '
     'the class masses, the water and the solid density; adding two '
     'packages adds their solid volumes. Operands of operations that return '
     'a new package and packages that reject an operation stay unchanged.',
     ALL, 'every material, all masses and densities, all operands and '
     'sequences of operations', 'Tests use one material and fixed masses; '
     'dry or solid-free packages and mixed densities are not covered.',
     [MAT + 'slurry.py'],
     [('MaterialPackage.__add__/add_to/__mul__/extract', MAT + 'slurry.py')],
     [('size_class_masses, H2O_mass, solid density',
       'contents of the package', MAT + 'slurry.py')])

prop('C11', 'Thermo packages conserve compound mass and enthalpy',
     'Adding, scaling and extracting thermo material packages changes the '
     'mass of each compound by exactly the amount added, scaled or '
     'extracted, and the enthalpy of the result is the sum (share) of the '
     'enthalpies of what was combined (separated). The enthalpy of a package '
     'always is the enthalpy of its compounds at the temperature it '
     'reports, whichever of temperature, enthalpy or contents was set last. '
     'Operands and rejected operations leave packages unchanged.',
     ALL, 'every material, composition, temperature, operand and sequence '
     'of operations', 'Tests use one material and a few numbers.',
     [MAT + 'thermo.py'],
     [('MaterialPackage.__add__/__mul__/extract/T/H setters',
       MAT + 'thermo.py:385-1080')],
     [('compound masses, H, T, P', 'contents and state', MAT + 'thermo.py')])

prop('C12', 'Thermo streams conserve compound mass flow and enthalpy flow',
     'Adding, scaling and extracting thermo material streams changes the '
     'mass flow rate of each compound by exactly the amount added, scaled or '
     'extracted, and the enthalpy flow rate of the result is the sum (share) '
     'of the enthalpy flow rates combined (separated). The enthalpy flow '
     'rate always is that of the compounds at the temperature the stream '
     'reports. Operands and rejected operations leave streams unchanged.',
     ALL, 'every material, composition, temperature, operand and sequence '
     'of operations', 'Tests use one material and a few numbers.',
     [MAT + 'thermo.py'],
     [('MaterialStream.__add__/__mul__/extract/T/Hfr setters',
       MAT + 'thermo.py:1082-1800')],
     [('compound mass flow rates, Hfr, T, P', 'contents and state',
       MAT + 'thermo.py')])

prop('C13', 'Materials turn assays into packages of exactly the asked mass',
     'A package (or stream) created from an assay and a mass contains '
     'exactly that mass, divided in the proportions of the assay, whichever '
     'way the assay got into the material. Adding an assay makes it '
     'available under its name without touching other assays; an assay that '
     'is rejected (wrong type, wrong size) leaves the material unchanged.',
     ALL, 'every material, assay vector and mass',
     'Tests use the assays of one file.',
     [MAT + 'chem.py', MAT + 'psd.py', MAT + 'slurry.py', MAT + 'thermo.py'],
     [('Material.create_package/add_assay/create_empty_assay',
       MAT + '*.py')])

prop('C14', 'The accounting equation holds for every set of transactions',
     'For every list of transactions between accounts of any types: the '
     'balance sheet gives each asset account debits minus credits and each '
     'liability and equity account credits minus debits, over exactly the '
     'transactions up to its end date; the income statement gives each '
     'revenue account credits minus debits and each expense account debits '
     'minus credits, over exactly the transactions of its period and '
     'component (and its sub-components), except the sides that close an '
     'account. An account is listed if and only if such a transaction uses '
     'it. Hence, without closing transactions, assets equal liabilities '
     'plus equity plus net income, and the totals printed in both tables '
     'agree with their rows. The statements asked of a ledger, printed or as '
     'text, are these.',
     ALL, 'every chart of accounts and every list of transactions',
     'Tests use one small ledger.',
     ['auxi/modelling/financial/des.py',
      'auxi/modelling/financial/reporting.py'],
     [('BalanceSheet, IncomeStatement',
       'auxi/modelling/financial/reporting.py')])

prop('C15', 'Year-end closing settles every income account',
     'At the end of each financial year of an entity, and at no other time, '
     'the balances of exactly the transactions of that year are closed: '
     'every revenue and expense account is brought to zero by one '
     'transaction of its balance against the income summary - or, for '
     'the accounts below sales and cost of sales, against the gross '
     'profit, which then goes to the income summary - and the income (revenue minus expenses) is '
     'moved from the income summary to retained earnings. The closing '
     'transactions are dated a second before the next year begins, are '
     'flagged as closing and carry no negative amount; accounts that are '
     'neither revenue nor expense are not touched; each year begins where '
     'the previous one ended. (Dates have a resolution of a second.)',
     ALL, 'every list of transactions of a year',
     'Tests run one small year.', ['auxi/modelling/business/structure.py'],
     [('Entity._perform_year_end_*',
       'auxi/modelling/business/structure.py')])

prop('C16', 'Loans are paid back exactly over their duration',
     'For every amount, duration in months and non-negative interest rate, '
     'and in whichever order these are set or changed, the payment of a '
     'loan is the annuity that pays it off: payment * (1 - (1+i)^-n) = '
     'amount * i for the monthly rate i = rate/12, amount / n without '
     'interest. The first month of the run credits the loan account with '
     'the whole amount and debits the bank account; every later month '
     'charges one month of interest on what is left to the loan account and '
     'makes one payment, and what is left always equals the balance of the '
     'loan account. After n payments nothing is left and nothing is booked '
     'any more. A loan without amount or duration books nothing. (The loan '
     'runs every month of a clock with monthly periods, starting within the '
     'run; interval 1.)',
     ALL, 'every amount, interest rate, duration and month',
     'Tests run one loan of one rate and do not look at the balance that is '
     'left.', ['auxi/modelling/business/basic.py'],
     [('BasicLoanActivity', 'auxi/modelling/business/basic.py')])

prop('C17', 'Activities run in exactly the periods they are scheduled for',
     'An activity starts in the first period that begins after its start '
     'date (in the last period if that begins on this date; never if all '
     'periods begin earlier; in the first period if no start was given) '
     'unless its start period was set, and ends before the first period '
     'that begins after its end date - with its number of periods if that '
     'was set, open if no end was given - and never before its start. From '
     'start to end it is due in every interval-th period of the clock after '
     'which a whole interval remains; a basic activity with a positive '
     'amount then books this amount once, dated at the period, between its '
     'accounts. A model prepares every entity once and runs every entity '
     'once in every period of the run, entities and components hand every '
     'request to each of their parts exactly once, and an entity forgets the '
     'transactions of an earlier run. Period i of a clock begins i units '
     'after its start, and every tick advances it by one.',
     ALL, 'every start, end, interval, number of periods, every number of '
     'entities, components and activities', 'Tests use a few periods of one '
     'activity.',
     ['auxi/modelling/business/structure.py', 'auxi/core/time.py',
      'auxi/modelling/business/basic.py',
      'auxi/modelling/business/models.py'],
     [('Activity.prepare_to_run/_meet_execution_criteria',
       'auxi/modelling/business/structure.py'),
      ('Component/Entity.run, prepare_to_run',
       'auxi/modelling/business/structure.py'),
      ('TimeBasedModel.run', 'auxi/modelling/business/models.py'),
      ('Clock', 'auxi/core/time.py')])

prop('C18', 'Accounts and components are found at the path they report',
     'Every account, activity, component and entity reports the path made '
     'of the names of its ancestors and its own, joined by "/", from its '
     'creation on and whenever it or an ancestor is renamed or attached '
     'elsewhere. A created sub-account has the account type of its parent, a '
     'created component the ledger of its parent, and an activity is only '
     'added after its accounts were validated against the ledger structure. '
     'With the names of siblings different, non-empty and free of "/", '
     'get_account finds the account with the path asked for, and None if '
     'there is none; the lookups of components, activities and entities by '
     'name find the part of that name, removing by name removes that part '
     'only, get_account_descendants lists all accounts below the account, '
     'and validate_account_names raises a ValueError if and only if '
     'get_account finds nothing for one of the names.',
     ALL, 'every tree of accounts and components, names and looked up paths',
     'Tests use fixed trees.',
     ['auxi/modelling/financial/des.py',
      'auxi/modelling/business/structure.py',
      'auxi/modelling/business/models.py'],
     [('set_parent_path/get_account/create_account',
       'auxi/modelling/financial/des.py'),
      ('set_parent_path/name', 'auxi/modelling/business/structure.py')])

prop('C19', 'Dimensionless numbers and pipe flow follow their definitions',
     'For all positive arguments the Grashof, Prandtl, Reynolds, Nusselt and '
     'Sherwood numbers are their documented ratios and the Rayleigh number '
     'is Gr Pr with the standard acceleration of gravity. The laminar '
     'friction factor is 64/Re, that of smooth ducts '
     '1/(1.82 log10(Re) - 1.64)^2, that of Haaland '
     '1/(1.8 log10(6.9/Re + (roughness/D/3.7)^1.11))^2 whether or not it '
     'warns, that of Colebrook is positive and solves Colebrook\'s '
     'equation for every Re from 4000 to 1e8 and relative roughness from 0 '
     'to 0.05; the hydraulic diameter is 4 A/P and the pressure drop '
     'f (L/D) (rho v^2/2).',
     ['inputs'], 'all positive arguments',
     'The tests of the numbers are empty, those of pipe flow do not exist.',
     ['auxi/tools/transportphenomena/dimensionlessquantities.py',
      'auxi/tools/transportphenomena/fluidflow/pressuredrop.py'],
     [('Gr, Pr, Re, Ra, Nu, Sh',
       'auxi/tools/transportphenomena/dimensionlessquantities.py'),
      ('f_l, f_ts, f_tr_Haaland, f_tr_Colebrook, D_h',
       'auxi/tools/transportphenomena/fluidflow/pressuredrop.py')])

prop('C20', 'Natural convection uses the correlation of the right region',
     'For every fluid (its properties positive functions of temperature), '
     'length, pair of temperatures and angle from -90 to 90 degrees, the '
     'local Nusselt number of an isothermal flat surface is a real number: '
     'the one of exactly one correlation. With the angle that of a hot '
     'surface (for a cold surface the opposite angle) and Ra = |Gr| Pr of '
     'properties at the reference temperature, this is 9_22 up to -52 '
     'degrees for Ra up to 1e7 and 9_23 above, 8_27 between -52 and 0, 8_26 '
     'at 0, 8_27 between 0 and 88, and 8_38 from 88 degrees; g is reduced '
     'to its component along the surface between 0 and 45 degrees only. A '
     'region contains the points within its limits, open or closed as '
     'given. The average Nusselt number is 4/3 of the local one, and the '
     'heat transfer coefficients are Nu k / L with k at the reference '
     'temperature.',
     ['inputs'], 'every angle, fluid, length and pair of temperatures',
     'Tests check one vertical surface in air.',
     ['auxi/tools/transportphenomena/heattransfer/naturalconvection.py'],
     [('IsothermalFlatSurface.Nu_x, Nu_L, h_x, h_L',
       'auxi/tools/transportphenomena/heattransfer/naturalconvection.py')])

prop('C21', 'Property models obey the gas law and validate their state',
     'The density models of ideal gases satisfy rho R T = P M for every '
     'molar mass, pressure and temperature, for mixtures with the mean molar '
     'mass, and the thermal expansion coefficient is 1/T, the relative '
     'decrease of that density with temperature. A fitted polynomial model '
     'returns the value of its polynomial. These models raise a '
     'ValidationError if and only if the state lacks a required variable, '
     'has an unknown one, or has a value of another type or outside the '
     'limits of the model. A material\'s thermal diffusivity is '
     'k/(rho Cp) and its kinematic viscosity mu/rho unless it has models of '
     'them, and a property without a model is not implemented. The gases and '
     'the water of the library are named after what they are, reproduce '
     'their data sets within 3.5 %, at the temperatures of these only, and '
     'the gases with an ideal gas density obey the gas law at 101325 Pa.',
     ['inputs'], 'every state, molar mass, composition and polynomial',
     'Tests check single points.',
     ['auxi/tools/materialphysicalproperties/idealgas.py',
      'auxi/tools/materialphysicalproperties/polynomial.py',
      'auxi/tools/materialphysicalproperties/core.py',
      'auxi/modelling/process/materials/core.py'],
     [('BetaT, RhoT, RhoTP, RhoTPx',
       'auxi/tools/materialphysicalproperties/idealgas.py'),
      ('PolynomialModelT.calculate',
       'auxi/tools/materialphysicalproperties/polynomial.py'),
      ('Model.calculate', 'auxi/tools/materialphysicalproperties/core.py'),
      ('Material.alpha, nu', 'auxi/modelling/process/materials/core.py')])

prop('C22', 'Gas-mixture models follow their mixing rules',
     'For every composition given in any amounts, with or without compounds '
     'that the library has no model of (which are left out), the '
     'Herning-Zipperer viscosity is the mean of the pure viscosities '
     'weighted with amount times the root of the molar mass, the ideal heat '
     'capacity is the mean weighted with amount times molar mass, and both '
     'lie between the smallest and the largest pure value; the Wilke '
     'viscosity follows the rule of Wilke. Only the proportions of the '
     'composition matter, and a single compound has its own value in all '
     'three models. A formula stands for the gas of the library with that '
     'formula and its data set.', ['inputs'],
     'every composition and temperature',
     'Tests check single mixtures.',
     ['auxi/tools/materialphysicalproperties/gases.py'],
     [('mixture models', 'auxi/tools/materialphysicalproperties/gases.py')])

prop('C23', 'Slag viscosity models follow their formulas',
     'For every composition and temperature the Urbain model (of a slag with '
     'at least one modifier or amphoteric oxide) and the Riboud model (of a '
     'slag with at least one compound it knows, counting P2O5, Fe2O3 and B2O3 '
     'as two cations and leaving out unknown compounds) return the documented '
     'expression with the categories of the oxides, a positive viscosity '
     'that depends on the proportions of the composition only; the models by '
     'mass fraction equal those by mole fraction of the same slag. The '
     'composition passed in is left unchanged.',
     ['inputs'], 'every composition and temperature',
     'Tests check single points.',
     ['auxi/tools/materialphysicalproperties/slags.py'],
     [('slag models', 'auxi/tools/materialphysicalproperties/slags.py')])

prop('C24', 'Coal enthalpy is the integral of its heat capacity',
     'For every composition of dry ash-free coal (mass fractions of C, H, O, '
     'N and S between 0 and 1, not all 0) and every positive temperature, '
     'the derivative of the enthalpy model (DafHTy) with respect to '
     'temperature is the heat capacity model (DafCpTy), both are positive '
     'numbers, the mean atomic weight they use is the mass per amount of '
     'the elements, and the enthalpy is that of the two Einstein functions '
     '(380 K and 1800 K, weighted 1 to 2) documented by Merrick.',
     ['inputs'], 'every composition and temperature',
     'There are no tests of the coal models.',
     ['auxi/tools/materialphysicalproperties/coals.py'],
     [('DafCpTy/DafHTy', 'auxi/tools/materialphysicalproperties/coals.py')])

prop('C25', 'The transaction list shows each selected transaction exactly once',
     'The transaction list of a general ledger contains one row for every '
     'transaction whose date lies in the period of the report and whose '
     'source is the component of the report or one of its sub-components '
     '(any source when no component is given), and no other rows. The rows '
     'are in order of date and show the date, source, accounts, amount and '
     'description of their transaction; the total is the sum of the amounts '
     'of these transactions. The list asked of a ledger, printed or as text, '
     'is this one.', ALL, 'every list of transactions',
     'Tests use one list.', ['auxi/modelling/financial/reporting.py'],
     [('TransactionList', 'auxi/modelling/financial/reporting.py')])

prop('C26', 'The chart of accounts report lists each account once, in every '
     'format',
     'The report of a general ledger structure has one row for every account '
     'of the structure, with or without a number, below that of its parent: '
     'the type, the name, the description and the numbers of its ancestors '
     'and its own joined by "/"; the accounts of the income statement come '
     'first. A report gives (as text), prints, or writes to the output path '
     'with the extension of the format - .txt, .tex or .csv - all rows of '
     'its table once and nothing else; without an output path it is printed '
     'in that format.',
     ALL, 'every tree of accounts, every table and every output path',
     'Tests count the rows of the default structure.',
     ['auxi/modelling/financial/reporting.py', 'auxi/core/reporting.py'],
     [('GeneralLedgerStructure report',
       'auxi/modelling/financial/reporting.py'),
      ('Report.render', 'auxi/core/reporting.py')])
