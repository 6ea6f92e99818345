"""property -> (module, argument), and the rule each check applies"""
CHECKS = {}
RULES = {}
TECHNIQUE = {}
NOTES = {}
TECH = ('abstract interpretation of the source (affine/polynomial relational domain, trace partitioning, joins), '
        'exit relations decided by identity modulo path facts')
NOTE = ('Sound for real-number arithmetic over every execution path the interpreter covers; rounding is not modelled. '
        'Assumes the entry invariant stated in DESIGN.md, whose preservation is itself checked, and the models of '
        'builtins, numpy and pandas in absint/models.py.')


def reg(pid, mod, rule, technique=None, note=None):
    CHECKS[pid] = (mod, None)
    RULES[pid] = rule
    if technique:
        TECHNIQUE[pid] = technique
    if note:
        NOTES[pid] = note


reg('C01', 'c_step', 'delta_Q_0 = R_n+H+L_v_E+G_0+M and delta_Q = delta_Q_0+G-G_0 as polynomial identities at every step exit; '
    'no energy term depends on an old value; all zero without snow')
reg('C02', 'c_step', 'exit mass = entry mass + precipitation + evaporation - runoff, as a polynomial identity modulo the path facts')
reg('C03', 'c_step', 'sums and density products of the layer fields are polynomial identities at every step exit')
reg('C04', 'c_step', 'residue fields are identically zero (or the placeholder) in every exit state without the layer')
reg('C10', 'c_step', 'in every exit state with a layer: FREEZE - t >= 0 for the layer temperatures and the average, and cc <= 0, proved from the path facts')
reg('C11', 'c_step', 'sign obligations on melt, swi, h2o, h2o_total and capacity - h2o at every exit state; h2o + swi = h2o_total and swi > 0 only when h2o = h2o_max at every return of runoff (density cap there is taken from C22)')
reg('C22', 'c_step', 'maximum - rho >= 0 at every exit state and where runoff is determined; both compaction routines run from an arbitrary consistent pack: mass identical, rho_new - rho_old >= 0, unchanged above the limit, limit - rho_new >= 0')

reg('C14', 'c_input', 'every normal exit of InputData(record) satisfies the phase rules as identities or inequalities modulo its path facts')
reg('C09', 'c_prop', 'every read of a derived quantity equals the value implied by the fields at that moment; every turbulent-exchange and conductivity call site receives a matching temperature/vapour-pressure pair')
reg('C12', 'c_hle', 'every exit of hle1 with a success status carries the convergence facts or is neutral/calm; no timestep completes after a failure status')
reg('C13', 'c_hle', 'no path returns normally once an unphysical input class is assumed at entry')
reg('C05', 'c_sched', 'on every schedule of timesteps: clock at each step and at the end equals the sum of the physics time steps, as identities; physics never writes the clock')
reg('C06', 'c_sched', 'on every schedule: each weather input at each step equals the linear interpolation and each precipitation amount the share, as identities; physics never writes the records except limiting vapour pressure')
reg('C07', 'c_sched', 'on every schedule: number, order, stamps and values of the output records equal the reference; records are distinct objects of plain values')
reg('C08', 'c_sched', 'on every schedule: every accumulated field of every record equals the time-weighted mean or the sum over the steps since the previous record')
reg('C23', 'c_sched', 'layer determination from an arbitrary pack and every division of a timestep agree with the mass thresholds known on the path')

TECHC = ('abstract interpretation of the driver from a symbolic configuration and a generic-row table (row-wise pandas model), '
         'value identities decided modulo path facts')
reg('C21', 'c_names', 'every name, imported name, attribute and package call in the syntax trees resolves; no interpreted path meets an undefined name, missing attribute, unset local, unfit call or missing key',
    'whole-package name/attribute/call-shape resolution over syntax trees, plus the error events of the abstract interpreter over the model paths',
    'Resolution is by name (an attribute stored anywhere on a class counts as present), path-sensitive presence only where the interpreter goes: the point model, core formulas, configuration, input and output. The gridded classes are covered by resolution only.')
reg('C15', 'c_config', 'each documented option reaches its model quantity as an identity, per switch combination; invalid timestep tables have no normal exit', TECHC)
reg('C16', 'c_config', 'every column, the index, the selection and the record sequence of the input table equal the documented mapping on every mask path', TECHC)
reg('C17', 'c_config', 'the table handed to to_csv has exactly the documented columns, each equal to its model quantity (or its formatted text)', TECHC)
reg('C18', 'c_config', 'no path from a faulty configuration reaches a read, model or write call or a normal exit; every exit is a failure', TECHC)

reg('C20', 'c_form', 'on every mask path the array saturation functions equal the scalar ones under the same facts; every method and derived quantity of the gridded state leaves the same values as the point state',
    'abstract interpretation of both versions from the same symbolic state, results compared as exact expressions')
reg('C24', 'c_form', 'each formula, in each of its regimes, is the documented expression: exact identity over logarithms, powers and exponentials',
    'abstract interpretation of each formula in each regime, result compared with the documented expression as an exact identity')
reg('C19', 'c_effects', 'no name of the package denotes a clock, random, environment or identity source; no function stores into a parameter or an alias of it; no write reaches module, class, default or argument state',
    'name resolution and alias analysis with call summaries over syntax trees, plus heap-write effects of the abstract interpreter',
    'Argument purity of array functions is decided by alias analysis (numpy views of a parameter count as the parameter); results of external library calls are taken to depend on their arguments only.')

CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24']
NA = {
    'C25': 'dimensions are not written in this source: the empirical formulas mix coefficients whose units are stated nowhere, so a '
           'separate unit inference would rest on guessed units and could not be kept free of false alarms; the conversions the '
           'statement names are decided as exact identities elsewhere (minutes to seconds and Celsius options: C15, Celsius '
           'columns: C16, C17, metres and kilometres and every formula: C24, fluxes times timestep: C01, C02, C08)',
    'C26': 'needs the original Snobal program as an oracle and agreement of floating-point series; no static argument over the '
           'source reaches equality with an external implementation that is not in the repository',
    'C27': 'the gridded model is unfinished in this tree (its constructor cannot complete, see C21 findings), so there is no '
           'gridded run to relate to point runs; the formulas both share are decided under C20',
    'C28': 'convergence and start-independence of a transcendental fixed-point iteration is a numerical-analysis question over '
           'runtime values that no sound static argument in reach bounds',
    'C29': 'convergence order and stability under step refinement is a numerical-analysis property of the scheme over all inputs, '
           'not decidable from the source structure',
}
