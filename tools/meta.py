"""Single source of the property list and of the manifest.  `python3 tools/meta.py` rewrites
properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, text, why, files, mech, level, technique, note, na=None, state=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, technique=technique, note=note, na=na, state=state))


CH = 'plaschem/chemistry.py'
SP = 'plaschem/species.py'
RE = 'plaschem/reactions.py'
XM = 'plaschem/xml_inputs.py'
CL = 'plaschem/classification.py'
LA = 'plaschem/latex.py'
PP = 'plaschem/pretty_print.py'
MP = 'pygmo_fwork/pygmol/model_parameters.py'
EQ = 'pygmo_fwork/pygmol/equations.py'
MO = 'pygmo_fwork/pygmol/model.py'
NM = 'pygmo_fwork/pygmol/neutral_model.py'
GM = 'pygmo_fwork/global_model.py'
RS = 'pygmo_fwork/results.py'
CF = 'pygmo_fwork/config.py'
GR = 'pygmo_fwork/optichem/graph.py'
ER = 'pygmo_fwork/optichem/errors.py'
RD = 'pygmo_fwork/optichem/reduction.py'
MR = 'pygmo_fwork/optichem/morris.py'

BFS = 'explicit-state exploration of the real code in lockstep with a reference model'
ENUM = 'bounded exhaustive enumeration of inputs and configurations on the real code against a reference model'
SEQ = 'exhaustive enumeration of bounded operation sequences on the real code against a reference model'
FLT = 'exhaustive enumeration of environment answers (solver outcomes, faults) along bounded histories'

prop('P01', 'Disabling leaves exactly the largest consistent sub-network',
     'An accepted request to disable species and/or reactions leaves enabled exactly the largest sub-network that '
     'avoids everything requested and previously disabled, in which every reaction has all its participants and every '
     'species takes part in at least one reaction. A request is refused exactly when that sub-network would lack a '
     'protected species or would have no positive ion. How the species are identified (id, name, object) makes no '
     'difference.',
     ['inputs', 'configurations', 'histories'],
     'For every chemistry, every set of protected species, every already reduced state and every set of requested '
     'species and reactions, in whatever order and by whatever identifier.',
     'Tests disable a handful of hand-picked items in two fixed chemistries; the cascade depends on the topology of '
     'the whole network, the request and what is protected.',
     [CH], ['Chemistry._disable_recursively', 'Chemistry.disable'], 'model_checking', ENUM + ' (greatest fixpoint)',
     'All networks with up to 4 reactions (5 in the thorough tier) from a pool of conserving reactions, all requests up '
     'to 2 items (3 in thorough) and all single protections; the reference fixpoint is itself cross-checked by '
     'brute-force enumeration of every sub-network. Networks beyond the pool are not covered.')
prop('P02', 'Protected species, electron and last positive ion survive every history',
     'After any sequence of disabling, resetting, protecting, overriding, saving and restoring, the electron, every '
     'explicitly protected species that was enabled when protected, and at least one positive ion are enabled and the '
     'enabled network is consistent. Whenever a single positive ion is left by disabling it is reported as protected. '
     'A reset re-enables everything, keeps explicit protections and overrides, and drops the implicit protections.',
     ['histories'],
     'For every finite sequence of public operations on a chemistry.',
     'Tests check one or two consecutive operations; the masks interact over histories.',
     [CH], ['Chemistry.disable', 'Chemistry.reset', 'Chemistry.set_protected_species',
            'Chemistry.load_chemistry_attributes', 'Chemistry.copy'],
     'model_checking', BFS,
     'Breadth-first search over every reachable state of several small chemistries under the full operation alphabet, '
     'lockstep against a reference state machine; alphabets and depth are bounded as listed in the evidence.')
prop('P03', 'A rejected operation leaves the chemistry untouched',
     'Whenever an operation on a chemistry (disabling, protecting, overriding a value, restoring a saved state) is '
     'rejected with an error, everything observable about the chemistry is exactly what it was before the call.',
     ['histories', 'inputs'],
     'For every reachable state of a chemistry and every invalid or refused operation.',
     'Tests assert that the error is raised, rarely what the object looks like afterwards, and only from fresh objects.',
     [CH], ['Chemistry.disable (backtracking)', 'Chemistry.set_protected_species',
            'Chemistry.set_adhoc_species_attributes', 'Chemistry.set_adhoc_reactions_attributes',
            'Chemistry.load_chemistry_attributes'],
     'model_checking', BFS + ', every state crossed with a menu of invalid operations',
     'All states to a bounded depth crossed with an exhaustive menu of invalid calls, including saved-state files that '
     'are truncated at every key, of another chemistry, or refer to unknown items.')
prop('P04', 'A saved chemistry state is restored exactly and compared exactly',
     'Saving the state of a chemistry and restoring it into another chemistry built from the same input, whatever '
     'state that one is in, yields a chemistry which is observably identical to the saved one. The coherence test '
     'against a saved file answers yes exactly when the chemistry is in the saved state, and restoring is refused when '
     'the input file behind the chemistry differs.',
     ['histories'],
     'For every pair of reachable states: the one saved and the one restored over.',
     'Tests dump and load one state; the result depends on both the dumped and the overwritten state.',
     [CH], ['Chemistry.dump_chemistry_attributes', 'Chemistry.load_chemistry_attributes',
            'Chemistry.check_coherence', 'Chemistry.xml_hash'],
     'model_checking', 'all ordered pairs of reachable states found by explicit-state exploration',
     'Pairs of all states reachable within the depth bound on small chemistries; YAML itself is trusted.')
prop('P05', 'A copied chemistry is identical and fully independent',
     'A copy of a chemistry answers every query as the original does, and no later operation on either of them, or on '
     'any value they returned, changes what the other one answers.',
     ['histories'],
     'For every reachable state at the time of copying and every operation afterwards on either side.',
     'Tests copy one state and mutate once; aliasing shows only for particular operations after particular states.',
     [CH, NM], ['Chemistry.copy', 'Chemistry getters'],
     'model_checking', BFS + ' (copy crossed with every later operation on either side)',
     'All states to the depth bound crossed with every operation on copy and original, plus mutation of every returned '
     'container.')
prop('P06', 'Overrides change exactly the overridden values, in the right units',
     'A sticking coefficient, return coefficients or pre-exponential factor overridden on a chemistry is what the '
     'chemistry reports for that species or reaction from then on, in nominal or SI units as asked, until reset, and '
     'no other value changes. All per-species and per-reaction vectors keep exactly the index of the species and '
     'reactions selected by the caller\'s filters, in order.',
     ['histories', 'configurations'],
     'For every combination of overrides and resets, disabled items, protections and getter filters.',
     'Tests override one value on a chemistry with nothing disabled and read it with default filters.',
     [CH], ['Chemistry.set_adhoc_*', 'Chemistry.reset_adhoc_*', 'Chemistry.get_species_*', 'Chemistry.get_reactions_*'],
     'model_checking', SEQ,
     'All override/disable/reset sequences up to the depth bound, every getter with all eight filter combinations.')
prop('P07', 'The return matrix says what the walls give back',
     'Entry (i, j) of the return matrix is the number of particles of species i released per stuck particle of species '
     'j: the overridden or else the defined return coefficients, zero if j does not stick, if i is disabled or not '
     'defined as returned. Rows and columns are exactly the selected species, in order, and return coefficients never '
     'mention a disabled species.',
     ['inputs', 'configurations', 'histories'],
     'For every assignment of sticking and return coefficients, overrides, disabled set and filter.',
     'Tests compare one matrix; the special-species variant has no passing test.',
     [CH], ['Chemistry.get_return_matrix', 'Chemistry.get_species_ret_coefs'],
     'exploration', ENUM,
     'Exhaustive over a small alphabet of sticking/return definitions for three species, overrides, disabled sets and '
     'filters.')
prop('P08', 'Stoichiometry matrices and vectors describe the reactions exactly',
     'Every stoichiometric matrix and vector holds, for each selected reaction and species, exactly how many times the '
     'species appears on the left side, on the right side, or right minus left, and is labelled by the reaction and '
     'species identifiers in the order of the chemistry. Filtering disabled or special species only removes rows and '
     'columns.',
     ['inputs', 'configurations'],
     'For every chemistry, every disabled set and every filter combination.',
     'Tests compare a few matrices of a fixed chemistry.',
     [CH, RE], ['Chemistry.get_stoichiomatrix', 'Chemistry.get_reactions_stoich_coefs_electron',
                'Chemistry.get_reactions_stoich_coefs_arbitrary', 'Reaction.get_stoich_coefs'],
     'exploration', ENUM,
     'All two- and three-reaction networks (more in thorough) of a pool with repeated species, catalysts and third '
     'bodies, every consistent sub-network and filter.')
prop('P09', 'A reaction is accepted exactly when charge, atoms and units are right',
     'A reaction can be created exactly when it has one to three reactants and at least one product, conserves charge '
     'and every element (the arbitrary third body counted like an element), its rate parameters carry the unit implied '
     'by the number of reactants and by whether an electron is a reactant, and its pre-exponential factor is not '
     'negative.',
     ['inputs'],
     'For every list of reactants, products, attributes and units.',
     'Tests try a dozen combinations; conservation must hold for every multiset of species.',
     [RE, SP], ['Reaction.__init__', 'Reaction.assert_consistency', 'Reaction.set_reaction_attribute',
                'RP.get_atoms', 'RP.strip_charge'],
     'exploration', ENUM,
     'All multisets of up to 3 reactants and 3 products from an alphabet of species, times all unit assignments; '
     'element counting is re-implemented independently of pyvalem for that alphabet.')
prop('P10', 'Rate coefficients follow the Arrhenius form in consistent units',
     'The rate coefficient is A*T^b*exp(-c/T) with T in eV for electron collisions, and with T/300 in the power for '
     'heavy-particle collisions; the SI and the nominal value differ exactly by the unit factor; missing b and c count '
     'as zero; and every numeric attribute reads the same whether given as number or text. The chemistry, the single '
     'reaction and the plasma model agree on it.',
     ['inputs', 'configurations'],
     'For every reaction kind, unit, parameter value and temperature.',
     'Tests check a few values, and never that the three places agree.',
     [RE, CH, EQ], ['Reaction.get_rate_coefficient', 'Reaction.get_arrh_*', 'Chemistry.get_reactions_arrh_*',
                    'Equations.get_reaction_rate_coefficients'],
     'exploration', ENUM,
     'Full product of reaction kinds, units, value grids and temperatures; comparison to 1e-12 relative.')
prop('P11', 'Species attributes: validation, defaults and identity',
     'A species can be created exactly when its mandatory attributes are present, all names, types and units are '
     'supported, and a state comes with a state-less name. Unspecified values take the documented defaults (neutral '
     'ground-state species do not stick; excited or charged ones stick and return as their neutral ground state), and '
     'electron and third body have no surface or transport data.',
     ['inputs'],
     'For every combination of given and missing attributes, types and units, for every kind of species.',
     'Tests cover single attributes; combinations (charged and excited, text values, zero values) are not covered.',
     [SP], ['RP.__init__', 'RP.set_species_attribute', 'RP.get_*'],
     'exploration', ENUM,
     'Full product over a small alphabet of values for each attribute, pairwise products for the whole attribute set.')
prop('P12', 'Chemistries survive the XML round trip',
     'Writing any chemistry to XML and reading it back gives species and reactions with the same attributes, units and '
     'participants (including repeated ones, zero values and empty return lists), so that the model sees the same '
     'numbers. Disabled species and reactions are left out, and merging several sources keeps each species once '
     '(by name) and every reaction of every source.',
     ['inputs', 'configurations'],
     'For every chemistry and every combination of defined attributes.',
     'Tests round-trip fixed files whose attributes are mostly set.',
     [XM, SP, RE], ['XmlBuilder.add_*', 'XmlBuilder.dump_xml', 'XmlParser.get_species_and_reactions'],
     'exploration', ENUM,
     'All presence/absence patterns of attributes for species and reactions of several kinds, all consistent '
     'sub-networks of pool networks, all orders of two merged sources.')
prop('P13', 'XML building numbers, orders and guards deterministically',
     'After numbering, the electron has id 0, the third body 999, the other species 1.. and the reactions 1.. without '
     'gaps or repeats in their listed order, and reactions refer to the same species as before. Sorting only permutes '
     'and gives the same order for every order of insertion. An existing file is never overwritten unless asked.',
     ['inputs', 'histories'],
     'For every set of species and reactions, every insertion order and every sequence of build steps.',
     'Tests run one insertion order and one sequence.',
     [XM, CL], ['XmlBuilder.sort_elements', 'XmlBuilder.assign_species_ids', 'XmlBuilder.assign_reactions_ids',
                'XmlBuilder.dump_xml'],
     'model_checking', SEQ,
     'All insertion permutations of small networks and all build-step sequences to the depth bound.')
prop('P14', 'Classification is a total, order-independent partition of the reactions',
     'Every reaction falls into exactly one type and category, the same one for every order in which species and '
     'reactions are given, their participants are written and whatever else is in the chemistry; sorting puts species in '
     'the documented order (fewer and lighter elements first, ground states, positive, negative and excited) and '
     'reactions into one, and is a permutation, the same for every input order (different excited states of one formula and charge '
     'keep their given order); and an aligned reaction string, with its padding removed, is the reaction string.',
     ['inputs', 'configurations'],
     'For every set of reactions, every permutation of the input, and every sequence of sort/classify calls.',
     'Tests classify one fixed list in one order.',
     [CL], ['ReactionClassifier.sort_species', 'ReactionClassifier.sort_reactions',
            'ReactionClassifier.get_classified_reactions', 'ReactionClassifier.get_aligned_reaction_string'],
     'model_checking', SEQ,
     'All conserving reactions over an alphabet of species (two reactants, up to three products), all permutations of '
     'small reaction sets and all call sequences to the depth bound.')
prop('P15', 'Only consistent chemistries can be constructed',
     'A chemistry can be constructed exactly when species and reaction identifiers and species names are unique, the '
     'electron and a positive ion are present, every reaction uses only listed species objects, every listed species '
     'is used, and every returned species is listed. Electron and a sole positive ion start out protected, and a new '
     'chemistry has everything enabled.',
     ['inputs'],
     'For every list of species and reactions, in every order.',
     'Tests try a few broken inputs.',
     [CH, NM], ['Chemistry.__init__', 'Chemistry.assert_consistency'],
     'exploration', ENUM,
     'All subsets of species crossed with all subsets of a reaction pool, with single-defect mutations of each '
     'consistent chemistry (duplicate id, duplicate name, foreign object, missing return species).')
prop('P16', 'Model parameters are validated completely and cannot be changed',
     'A set of model parameters is accepted exactly when all mandatory values and no unknown ones are present with the '
     'right types and signs, the power and time series have equal lengths of at least two, and the times start at or '
     'before zero and extend at least ten percent past the end time. Alternative names are understood as the nominal '
     'ones, and neither the values given by nor those handed to the user can change a parameter set afterwards.',
     ['inputs', 'histories'],
     'For every combination of values, aliases and missing keys, and every attempt to modify.',
     'Tests try single bad values.',
     [MP], ['ModelParameters'],
     'exploration', ENUM,
     'Full product of value classes per key for up to three keys off nominal (four in thorough), all aliases, all '
     'mutation attempts.')
prop('P17', 'The model right-hand side does not depend on evaluation history',
     'The system of equations given to the solver returns the same derivatives for the same time and state whatever '
     'was evaluated before, equals the composition of the individually available diagnostic quantities, agrees with '
     'an independent transcription of the documented physics, and never modifies its inputs.',
     ['histories', 'inputs', 'configurations'],
     'For every chemistry, parameter set, state vector and every sequence of earlier evaluations of any quantity.',
     'Tests evaluate single quantities once on one chemistry.',
     [EQ], ['Equations.get_objective_functions', 'Equations.get_*'],
     'model_checking', 'all call sequences up to a depth over all diagnostic quantities and state points, on the real '
     'code, against a stateless reference implementation',
     'All sequences of up to 2 (3) earlier calls over every public quantity and a grid of states, over a set of '
     'chemistries; floating-point agreement to 1e-9 relative.')
prop('P18', 'The model equations conserve what the chemistry conserves',
     'For every state, volumetric source terms change neither total charge nor the number of atoms of any element, '
     'wall terms return atoms exactly as the return coefficients prescribe and never act on species that do not stick, '
     'feeds are split as prescribed with outflow acting on neutrals only and balancing inflow, and the electron '
     'density always equals the net ion charge.',
     ['inputs', 'configurations'],
     'For every chemistry (including reduced and overridden ones), parameter set and state vector.',
     'Tests compare numbers for a few states of one chemistry.',
     [EQ, CH], ['Equations.get_volumetric_source_rates', 'Equations.get_flow_source_rates',
                'Equations.get_diffusion_source_rates', 'Equations.get_electron_density'],
     'exploration', ENUM,
     'All consistent sub-networks of pool networks, a grid of states including near-zero densities, both wall models.')
prop('P19', 'Absorbed power follows the prescribed waveform',
     'The absorbed power at any time is the straight-line interpolation of the prescribed waveform, with steps at '
     'repeated time points smeared over at most two hundred-thousandths of the simulated time, and it heats the '
     'electrons with exactly that power per volume, for every accepted waveform with times in order.',
     ['inputs'],
     'For every accepted waveform and every time.',
     'Tests use two waveforms.',
     [EQ, MP], ['Equations.__init__ (power definition)', 'Equations.get_power_ext', 'Equations.get_drho_dt_ext'],
     'exploration', ENUM,
     'All non-decreasing time sequences up to length 4 (6) over a grid with repeats, all power values over a grid, '
     'queried at all breakpoints, midpoints and smear boundaries.')
prop('P20', 'Run success is reported exactly when the solver really succeeded',
     'A run is reported successful, and its results are available and belong to the chemistry and parameters it was run '
     'with, exactly when the solver finished over the whole requested time. When the solver fails or is interrupted an error '
     'is raised, the run is not reported as successful and no results of an earlier run are passed off as its own.',
     ['fault_sequences', 'histories'],
     'For every sequence of runs, parameter changes and chemistry reductions, with every solver outcome at each run.',
     'Tests see one solver outcome: success (and one artificial failure).',
     [MO, GM], ['Model.run', 'Model._solve', 'Model.success', 'GlobalModel.run', 'GlobalModel.reload_model_parameters'],
     'fault_enumeration', FLT,
     'All sequences of up to 3 (4) runs with every solver outcome from a menu (success, early stop, value error, '
     'interrupt) injected at the solver boundary; the integrator itself is trusted.')
prop('P21', 'Run logs are complete, faithful and never lost by accident',
     'Logging a finished run writes everything needed to read back the same solution, rates, fluxes, parameters and '
     'chemistry state. An existing log is replaced only when overwriting was requested, otherwise the call is refused '
     'and the old log stays byte for byte, and a failed run writes no log.',
     ['histories', 'fault_sequences'],
     'For every sequence of runs and log requests with every combination of names, overwrite flags and outcomes.',
     'Tests log once and overwrite once.',
     [GM, RS, MO], ['GlobalModel.run', 'GlobalModel.log_results', 'Model.dump_logs', 'ResultsParser.fetch_*'],
     'model_checking', SEQ + ' over a scratch results directory',
     'All sequences of up to 3 (4) logged or unlogged, successful or failed runs against a reference file store.')
prop('P22', 'Initial state respects pressure, feeds and given densities',
     'The default starting densities fill the vessel to the prescribed pressure at gas temperature, with the feed gases '
     'in the ratio of their feeds and all other species at the documented fractions, all positive and with the documented '
     'positive electron density. Densities given explicitly reach the solver as given, whatever their order. Initial data '
     'with missing or foreign species, without positive charge density or electron temperature are refused.',
     ['inputs', 'configurations'],
     'For every chemistry (also reduced), feed composition and initial-density prescription.',
     'Tests use two prescriptions for one chemistry.',
     [MO, GM], ['Model._build_y0', 'Model._y0_from_init_params', 'GlobalModel.generate_initial_n',
                'GlobalModel.validate_initial_n'],
     'exploration', ENUM,
     'All feed compositions and initial-density maps over small grids, for every sub-network with each form of the '
     'initial data.')
prop('P23', 'Production and consumption tables add up to the model source terms',
     'For every species and time, the logged volumetric and surface contributions of all processes add up to the source '
     'terms the model used, each contribution being rate times stoichiometric coefficient (or wall flux times return '
     'coefficient), listed for exactly the processes that involve the species.',
     ['inputs', 'configurations'],
     'For every chemistry, species, time and choice of production or consumption.',
     'Tests check one species in one chemistry.',
     [RS], ['ResultsParser.get_volumetric_rates', 'ResultsParser.get_surface_rates',
            'ResultsParser.get_results_frames'],
     'exploration', ENUM,
     'All species of all pool networks at every logged time of synthetic and real runs.')
prop('P24', 'Solution compression keeps the ends and the shape',
     'Compressing a logged solution keeps the first and the last row, keeps only rows of the full solution in order, '
     'and never drops a row that differs from the previously kept one by more than the documented tolerance unless the '
     'documented minimum time step has not passed.',
     ['inputs'],
     'For every solution table.',
     'Tests compress one table.',
     [RS], ['ResultsParser.compress_solution'],
     'exploration', ENUM,
     'All value sequences up to length 6 (7) over alphabets chosen around the tolerance, with all time-step patterns.')
prop('P25', 'Graph searches return optimal paths and flows',
     'On any weighted directed graph the bottleneck search returns paths whose smallest weight is the largest possible, '
     'the shortest-path search returns minimal-length paths, the flow search returns the maximum flow, and nodes that '
     'cannot reach the target are reported as such.',
     ['inputs'],
     'For every weighted directed graph, source and target.',
     'No test covers the graph module.',
     [GR], ['Graph.find_max_bottleneck_paths', 'Graph.find_shortest_paths', 'Graph.get_max_flow'],
     'exploration', 'exhaustive enumeration of all small weighted directed graphs, against brute force over all paths '
     'and cuts',
     'All directed graphs with 3 nodes over 4 weights and 4 nodes over 2 weights (more in thorough), all '
     'source/target pairs.')
prop('P26', 'Species ranking follows the documented coupling coefficients',
     'The edge weights between species are the documented direct-interaction coefficients computed from the reaction '
     'rates, never exceed one for the normalised schemes, and the ranking of a species is its largest best-path '
     'coupling to any important species at any time, listed in ascending order for exactly the non-important species.',
     ['inputs', 'configurations'],
     'For every chemistry, rate vector, scheme and set of important species.',
     'No test covers the ranking.',
     [GR], ['ChemistryGraph.distribute_weights*', 'ChemistryGraph.get_ranking*'],
     'exploration', ENUM,
     'All rate vectors over a small grid for several networks, all schemes, all important-species sets.')
prop('P27', 'The reported deviation between two solutions is the documented error',
     'The error between a reduced and a full solution is the documented symmetrised relative difference on the common '
     'time grid for each requested output, aggregated as maximum or root mean square; it is zero exactly for identical '
     'outputs and independent of the other columns and of how either table is sampled in between.',
     ['inputs'],
     'For every pair of solution tables and output selection.',
     'Tests compare two fixed tables.',
     [ER], ['SolutionsDiff'],
     'exploration', ENUM,
     'All pairs of short tables over a value grid with different time grids, all selections of outputs.')
prop('P28', 'Reduction keeps exactly the accepted removals, whatever the runs do',
     'After every step of an iterative reduction the chemistry is exactly the last one whose run succeeded within the '
     'error limit; important species are never removed; every attempt is in the history with its true outcome; and '
     'when the reduction ends or is interrupted the logs and the chemistry are consistent with that history.',
     ['fault_sequences', 'histories'],
     'For every ranking, error limit, and every sequence of outcomes (success, too large an error, failed run, '
     'refused removal, interrupt) of the individual runs.',
     'No test covers the reduction loop.',
     [RD], ['ReductionIterator.run_base_case', 'ReductionIterator.remove_one_species_and_run',
            'ReductionIterator.run_reduction'],
     'fault_enumeration', FLT,
     'All outcome sequences for every removal of small chemistries with a stub solver behind the real global model; '
     'real files in a scratch directory.')
prop('P29', 'Sensitivity trajectories move each factor exactly once on the grid',
     'Every sensitivity trajectory starts on the grid, changes exactly one factor per step by half the range, changes '
     'every factor exactly once, and never leaves the admissible interval, whatever the random draws are.',
     ['inputs'],
     'For every number of factors and every outcome of the random draws.',
     'Tests sample a few random trajectories.',
     [MR], ['MorrisMethod._get_seed_x', 'MorrisMethod._trajectory'],
     'exploration', 'exhaustive enumeration of every outcome of the random choices through a controlled random '
     'source on the real code',
     'Every start point on the grid and every order of factors, for up to 3 (4) factors.')
prop('P30', 'Sensitivity factors scale only their own quantity and restore the base state',
     'In every run of a sensitivity trajectory the model is solved with exactly the values which the factors x of that run '
     'stand for: a reaction factor multiplies the pre-exponential factor of its own reaction by 2x; a species factor '
     'multiplies those of all reactions in which the species takes part (on any side, once) by 2x; a return coefficient '
     'factor multiplies the nominal coefficient by range^(2x-1), compensated by the coefficient of the stuck species '
     'itself so that the total returned is conserved, and is refused when that would become negative. Everything else '
     'keeps its nominal (possibly overridden, possibly reduced) value, trajectories do not influence each other, and the '
     'chemistry and parameters handed in never change.',
     ['histories', 'configurations'],
     'For every chemistry, factor vector and sequence of applied factor vectors.',
     'Tests apply one vector.',
     [MR, CH], ['MorrisMethod._map_reactions_factors_to_k', 'MorrisMethod._map_species_factors_to_k',
                'MorrisMethod._map_a_factor_to_ret_coef'],
     'exploration', SEQ + ', with every outcome of the random choices from a menu',
     'Whole trajectories with 2 to 3 (4) factors on 12 chemistries; sequences of up to 3 (4) mapped return coefficients.')
prop('P31', 'Sensitivity logs resume coherently and statistics are exact',
     'A new trajectory takes the lowest number not used by a finished one and never changes the files of a finished one; it '
     'is refused exactly when its directory holds a finished trajectory, or when the chemistry, the parameters, the type '
     'or the backend differ from those of the finished trajectories of the same analysis. A trajectory with a failed or '
     'interrupted run is not finished, does not count in the statistics and can be run again. The logs of a finished '
     'trajectory are those of its runs; the elementary effects are the change of each output divided by the step, '
     'attributed to the changed factor; the statistics are their mean and standard deviation over the trajectories, '
     'absolute and relative to the mean output, and the rankings are the sums of them, in ascending order.',
     ['histories', 'inputs', 'fault_sequences'],
     'For every sequence of trajectories, changed settings and run outcomes.',
     'Tests run one trajectory.',
     [MR], ['MorrisMethod._prepare_logging', 'MorrisMethod._assert_coherence', 'MorrisMethod.evaluate_trajectory',
            'MorrisMethod.get_morris_stats', 'MorrisMethod.get_ranking'],
     'model_checking', SEQ + ', with stub run outcomes',
     'All sequences of up to 3 trajectories with changed settings between them, real files in a scratch directory.')
prop('P32', 'Published tables show the true numbers',
     'The typeset rate coefficient of a reaction shows its pre-exponential factor to three digits and its power, its '
     'activation energy and its electron energy loss to two decimal places, with the right sign, temperature and units, '
     'for every value. A typeset species keeps every element, number of atoms, charge and state, a typeset reaction all '
     'its species with their stoichiometric numbers on their sides. A table of reactions has one row for each enabled '
     'reaction, in their order, with the number, the reaction, the coefficient, the loss and the source in the columns '
     'asked for; notes, captions, labels and decorated cells appear where they were put and nowhere else.',
     ['inputs', 'configurations'],
     'For every number, unit, species name, reaction and table layout.',
     'No test covers the typesetting.',
     [LA, RE, SP], ['Texify', 'ReactionsTable', 'TexTable', 'Reaction.get_latex', 'RP.get_latex'],
     'exploration', ENUM + ', parsing the output back',
     'Grids of all magnitudes for each number incl. integers and multiples of ten; all names over the elements up to '
     'two-digit numbers; every reaction of the pool; every set of columns.')
prop('P33', 'Configuration is resolved or refused, never guessed',
     'A configuration is accepted exactly when its file exists and holds a mapping, and is then exactly that mapping; '
     'anything else, an absent key, an unknown backend or an absent backend program is refused with the documented '
     'error, before any directory is made. Each kind of results has its own directory inside the configured workspace, '
     'which is made when it is first asked for, at any moment and in any order, and nothing else is made, changed or '
     'removed; results of runs, analyses and reductions without an explicit directory go there and are found there.',
     ['configurations', 'histories', 'inputs'],
     'For every configuration content, sequence of requests and state of the workspace.',
     'Tests try a handful of files.',
     [CF], ['Config', 'Config.get_results_dir', 'Config.get_globalkin_stage_dir', 'Config.default_log_name'],
     'model_checking', 'explicit-state exploration of the workspace states under all sequences of requests, every transition replayed on the real '
     'code; enumeration of configuration contents',
     'The full reachable state space of one workspace, and of two up to 4 operations (without bound); 45 contents of the file.')
prop('P34', 'Electron-free chemistries and models obey the same guarantees',
     'A neutral chemistry needs neither electron nor ion but keeps every other guarantee (consistency, reduction, copy, '
     'save and restore), and its model is the particle balance of the plasma model without electrons at fixed '
     'temperature, with run success reported in the same way.',
     ['inputs', 'histories'],
     'For every electron-free chemistry and operation sequence.',
     'No test covers the electron-free variant.',
     [NM, CH], ['NeutralChemistry', 'NeutralEquations', 'NeutralModel'],
     'model_checking', SEQ,
     'All consistent neutral networks from a small pool with all operation sequences to the depth bound, and all '
     'states of a grid for the equations.')

prop('P35', 'Parallel or interrupted sensitivity analyses lose nothing',
     'Trajectories of one analysis which run in parallel worker processes end in the same state as trajectories run one '
     'after another, whatever the order of their file operations: each has its own number and directory with the results '
     'of its own runs, the meta data of the analysis are complete and correct, each draws its own random numbers '
     '(the same ones only for the same random seed given), none fails because of another, and a trajectory which '
     'does fail is reported and only that one is missing. If the program is killed at any moment, every trajectory found '
     'finished is complete, the analysis refuses incoherent trajectories as before and can be resumed with coherent ones.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'For every interleaving of the file operations of the workers and every point at which the program is killed.',
     'Tests run one trajectory in one process.',
     [MR], ['MorrisMethod.run_morris', 'MorrisMethod._assert_coherence', 'MorrisMethod._dump_meta',
            'MorrisMethod._prepare_logging'],
     'model_checking', 'stateless exploration of all interleavings (preemption-bounded, controlled scheduler at file operations) and of '
     'all crash points of the real code',
     '2 to 3 trajectories on 2 to 3 workers with up to 2 (3) preemptions; crashes with torn files at every mutating file operation.')

prop('P36', 'Listings show what the chemistry reports and mark what is disabled or derived',
     'A listing of the attributes of species or reactions has one row for each one asked for and shows in it, for every '
     'attribute and unit, what the chemistry reports now; everything of a disabled item is red, and of an enabled one '
     'exactly those values are blue which are not the ones it was given (defaults and overrides); headings of a '
     'classified listing stand above the reactions of their class. A pretty-printed matrix shows the entries of the '
     'matrix unchanged under the right names of rows and columns, with those of disabled items in red.',
     ['inputs', 'configurations'],
     'For every chemistry, disabled state, override and combination of options.',
     'Tests only call these functions.',
     [CH, PP], ['Chemistry.species_attributes', 'Chemistry.reactions_attributes', 'PrettyPrint.print'],
     'exploration', ENUM + ' and of all combinations of options, against a reference computed from the constructor arguments',
     'Networks of 2 to 4 reactions, three ways of giving the attributes, all disabled states, overrides, all options.')

prop('P37', 'Logged runs are found, read back, judged and compared as identified',
     'A run identified by its id and optionally a backend (in any case), a results directory or a file name yields exactly '
     'the tables and parameters which were logged under that identification, and is refused if there are none or the '
     'identification is contradictory. A comparison of runs has one row for each one with the values of its last row, or '
     'their differences from the first one in percent; frames at given times are linear interpolations in the order asked '
     'for and never extrapolations; an output is reported converged exactly if its relative change over the time window is '
     'at most the tolerance; plots of a solution show all densities or those outputs asked for; a plot of reduction runs '
     'shows every accepted removal, every dead end from the last accepted one, and refuses runs with different maximal errors.',
     ['inputs', 'configurations', 'histories'],
     'For every log, identification, list of runs, table, sequence of times and reduction history.',
     'Tests read back single logs with the nominal backend and call few combinations.',
     [RS, GM, RD], ['ResultsParser.fetch_solution', 'ResultsParser.compare', 'ResultsParser.get_results_frames',
                     'GlobalModel.check_convergency', 'ResultsParser.plot_solution', 'compare_reduction_runs'],
     'exploration', ENUM + ', of all lists of compared runs and all small reduction histories, against the files as written',
     'All identifications of six runs in four directories, lists of up to 2 (3) runs, tables of up to 3 (4) rows, histories of up to 3 (4) removals.')

IMPLEMENTED = [l.strip() for l in open(os.path.join(HERE, 'tools', 'implemented.txt')) if l.strip()]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = {'files': p['files'], 'mechanism': [{'name': m, 'where': ', '.join(p['files'])} for m in p['mech']]}
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['pid'], 'reason': p['na']})
        elif p['pid'] in IMPLEMENTED:
            checks.append({
                'property': p['pid'],
                'quick_cmd': './check.sh %s quick' % p['pid'],
                'thorough_cmd': './check.sh %s thorough' % p['pid'],
                'evidence_file': 'evidence/%s.json' % p['pid'],
                'technique': 'model checking: ' + p['technique'],
                'level': p['level'], 'level_note': p['note']})
        else:
            na.append({'property': p['pid'], 'reason': 'The check for this property is not built yet.'})
    man = {'version': 1, 'setup_cmd': './setup.sh',
           'hooks': {'guard': 'none', 'enable': 'No hooks are needed: the checks drive the public interface and '
                     'substitute stand-ins from outside.', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'All checks enumerate exhaustively within stated bounds; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
