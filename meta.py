"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
META = {}
B = 'balloon_learning_environment/'


def prop(pid, title, statement, over, qtext, why, files, mech, *, level='proof',
         note='', claimed=False, state=None, observe=None, trusted=(),
         assumptions=(), na=None, tech=None):
  META[pid] = dict(
      id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
      files=[B + f for f in files],
      mech=[dict(name=n, where=w) for n, w in mech], level=level, note=note,
      claimed=claimed, state=state, observe=observe, trusted=list(trusted),
      assumptions=list(assumptions), na=na, tech=tech)


UNTESTED = ('The simulator modules could not even be imported on this Python '
            '(their test modules fail at collection), and where tests exist '
            'they sample a handful of values; the claim is over all inputs. ')

prop('C01', 'Battery energy is conserved and bounded',
     'In every simulated sub-step the stored energy changes by exactly (solar power collected minus power drawn) times the sub-step duration, limited to the interval from empty to the battery capacity; the power drawn is the day or night load depending on whether the sun is above the solar-panel cut-off elevation, plus the altitude-control power, and nothing is collected at night. The flight ends with the out-of-power status exactly when the stored energy reaches zero, and the state of charge always lies in [0, 1]. Excess energy is reported only when solar power exceeds the daytime load and the state of charge is above 99%.',
     ['inputs', 'histories'], 'all balloon states, all three commands, all sub-step durations, all solar elevations',
     UNTESTED, ['env/balloon/balloon.py', 'utils/units.py'],
     [('battery update and clipping', 'env/balloon/balloon.py:_simulate_step_internal step 6'), ('state of charge, excess energy', 'env/balloon/balloon.py:BalloonState')])
prop('C02', 'The balloon drifts exactly with the wind and the clock advances exactly',
     'A simulation step of a given duration consists of duration/stride sub-steps; each moves the balloon horizontally by wind velocity times stride and advances both the clock and the elapsed time by exactly one stride, independent of the command. The step stops after the first sub-step that makes the flight status terminal; a balloon whose flight has already ended refuses to step, and durations that are not a multiple of the stride are refused.',
     ['inputs', 'histories'], 'all states, winds, durations, strides (any number of sub-steps)',
     UNTESTED + 'Tests only step a fixed number of sub-steps.', ['env/balloon/balloon.py', 'utils/units.py'],
     [('outer loop', 'env/balloon/balloon.py:Balloon.simulate_step'), ('position and time update', 'env/balloon/balloon.py:_simulate_step_internal')])
prop('C03', 'Envelope volume, superpressure and flight status obey the gas law',
     'The envelope model returns volume V and superpressure P such that an under-inflated envelope has zero superpressure and its unconstrained gas volume, and a fully inflated one satisfies V = V0 + k*P and (ambient + P) * V = n R T with P > 0. A sub-step ends the flight as burst exactly when the new superpressure exceeds the envelope maximum and as zero-pressure exactly when it is not positive (unless power runs out in the same sub-step), and otherwise leaves the status unchanged.',
     ['inputs'], 'all positive gas amounts, temperatures, pressures and envelope parameters',
     UNTESTED + 'The closed-form root of the quadratic is only tested at two points.', ['env/balloon/balloon.py'],
     [('quadratic for the inflated volume', 'env/balloon/balloon.py:calculate_superpressure_and_volume'), ('status', 'env/balloon/balloon.py:_simulate_step_internal')])
prop('C04', 'Commands act on ballast air and power as documented',
     'Staying moves no air and draws no altitude-control power; ascending only vents air, through the valve orifice, and draws no altitude-control power; descending only takes air in, at the mass flow given by the most efficient compressor power for the current pressure ratio and its efficiency, and draws exactly that power. The amount of ballast air never becomes negative and otherwise changes by mass flow over molar mass times the sub-step, and all other ballast parameters are untouched.',
     ['inputs'], 'all balloon states, all commands, all sub-step durations', UNTESTED,
     ['env/balloon/balloon.py', 'env/balloon/acs.py'], [('altitude control system', 'env/balloon/balloon.py:_simulate_step_internal step 5')])
prop('C05', 'Altitude safety keeps the balloon above 50,000 feet',
     'Below 50,000 feet the altitude safety layer always commands ascent; below 50,500 feet it never lets a descent through; after being low it keeps refusing descent until 51,000 feet is reached, and otherwise it passes the requested command through unchanged. It reports navigation as paused exactly while it is in such a restricted condition, it never turns a request into a descent, and its decision depends only on the history of altitudes.',
     ['inputs', 'histories'], 'all altitude histories and all requested commands',
     'Tests drive a few fixed altitude sequences.', ['env/balloon/altitude_safety.py'],
     [('state machine with hysteresis', 'env/balloon/altitude_safety.py:AltitudeSafetyLayer')])
prop('C06', 'Envelope safety prevents descent near burst or zero pressure',
     'Within 150 Pa of zero superpressure or of the maximum superpressure the envelope safety layer commands ascent; within 250 Pa of either it never lets a descent through; after either condition a descent stays blocked until the superpressure is more than 300 Pa away from that limit; otherwise the request passes unchanged. Navigation is reported paused exactly while one of these restrictions holds, for every maximum superpressure, and a request is never turned into a descent.',
     ['inputs', 'histories'], 'all superpressure histories, maximum superpressures and commands',
     'Its test module does not run here and samples one maximum superpressure.', ['env/balloon/envelope_safety.py'],
     [('state machine with hysteresis', 'env/balloon/envelope_safety.py:EnvelopeSafetyLayer')])
prop('C07', 'Power safety reserves enough charge to survive the night',
     'At night, once the charge projected for 30 minutes after the next sunrise (current charge minus night load times the remaining time) falls below 2.5% of capacity, descents are replaced by staying, and remain so until it is day and the charge has recovered to at least 5% of capacity; in every other situation the request passes through, and stay and ascend always pass through. The layer tracks sunrise and sunset by advancing them in whole days past the current time, however far the clock jumps.',
     ['inputs', 'histories'], 'all clocks, charges, capacities, loads and commands, any number of elapsed days',
     'Its test module does not run here and uses a handful of times.', ['env/balloon/power_safety.py'],
     [('day/night decision', 'env/balloon/power_safety.py:PowerSafetyLayer.get_action')])
prop('C08', 'Safety layers compose: power, then envelope, then altitude',
     'The command that takes effect in a step is the requested one filtered by the power layer (only if enabled), then the envelope layer fed the current superpressure, then the altitude layer fed the current pressure, decided once per step and applied to every sub-step. The balloon always records the requested command, not the effective one, and reports navigation paused exactly when at least one layer does.',
     ['inputs', 'configurations'], 'all commands, all layer decisions, layer enabled or not', UNTESTED,
     ['env/balloon/balloon.py'], [('layer chain', 'env/balloon/balloon.py:Balloon.simulate_step')])
prop('C09', 'Compressor and motor tables stay within their physical range',
     'For every pressure ratio the most efficient compressor power lies in [100, 400] W, does not decrease with the pressure ratio and matches the published table points; efficiency lies in [0, 0.4], takes exactly the published values at the table points, and mass flow is efficiency times power per hour. The policy power table returns zero below 30% state of charge, at most 350 W, never decreases with state of charge, changes exactly at its published thresholds, and rejects pressure ratios outside [0.99, 5].',
     ['inputs'], 'all pressure ratios, powers and states of charge', 'Tests sample table points.',
     ['env/balloon/acs.py', 'env/balloon/power_table.py'], [('interpolation tables', 'env/balloon/acs.py'), ('bisect lookup', 'env/balloon/power_table.py:lookup')])
prop('C10', 'The atmosphere maps height and pressure to each other consistently',
     'For every sampled atmosphere, looking up a height and then the resulting pressure returns the same height, temperature and density (and vice versa), at every point of the supported range including layer boundaries; pressure strictly decreases with height, temperature is positive and continuous across layers, and density obeys the ideal gas law. Heights and pressures outside the supported range are refused.',
     ['inputs', 'configurations'], 'all heights, pressures and lapse-rate mixtures', 'Tests check a few dozen tabulated points of two atmospheres.',
     ['env/balloon/standard_atmosphere.py'], [('piecewise barometric formula', 'env/balloon/standard_atmosphere.py:Atmosphere')])
prop('C11', 'Heat exchange has the right sign and energy balance',
     'Absorbed, emitted and convected heat follow the documented formulas: black-body flux is proportional to the fourth power of temperature and its inverse recovers the temperature, effective absorptivity lies in [0, 1], convection follows the sphere correlation of the model, is zero at equal temperatures and always flows from hot to cold. The balloon gas temperature derivative is the sum of solar, Earth infrared, convective and emitted terms divided by envelope heat capacity, and increases with incoming solar flux.',
     ['inputs'], 'all temperatures, absorptivities, geometries and fluxes', 'The thermal module has no test that checks it over a range.',
     ['env/balloon/thermal.py'], [('thermal model', 'env/balloon/thermal.py')])
prop('C12', 'Solar position and power are physically meaningful at all places and times',
     'At every valid position and timezone-aware time the sun elevation, azimuth and flux are those of the real sun (they agree with an independent ephemeris within 0.035 degrees and 3 W/m2, on every calendar day from 1900 to 2199; also with the sun straight overhead), the same instant gives the same answer whatever time zone it is expressed in, and invalid positions and naive times are refused. Atmospheric attenuation is the documented two-band extinction, lies in [0, 1], is zero exactly below the horizon cut-off, never decreases with elevation or as the air gets thinner, and refuses elevations beyond 90 degrees and pressures outside [0, 101325] Pa. Panels are shaded exactly from the documented elevation on, and solar power is the panel formula, never negative and zero when the sun is below the cut-off.',
     ['inputs'], 'all positions, times since 1970, elevations, pressures and panel heights', 'Tests compare a table of instants; two of the validity tests fail.',
     ['env/balloon/solar.py'], [('solar equations', 'env/balloon/solar.py:solar_calculator'), ('attenuation, shadow, power', 'env/balloon/solar.py')],
     level='other', note='Attenuation, shadow, power and refusals are proved for all inputs. The solar position itself is nonlinear trigonometry out of reach of the solvers: it is a bounded stand-in (sampled comparison with an independent ephemeris, every day of 1900-2199, places under the sun), not counted as proved.')
prop('C13', 'Sunrise, sunset, noon and midnight searches find the true event',
     'The elevation search returns, for every interval, resolution and any elevation curve with a single extreme (or a single crossing of the target), a time inside the interval within one resolution step of the event, with the elevation at that time; reversed or too short intervals and unknown targets are refused. The next noon and midnight lie within the coming day; the next sunrise and sunset lie ahead, within a day, and are true crossings of the horizon cut-off in the right direction; steps to sunrise are zero in daytime and otherwise the fewest whole steps that cover the wait; latitudes of 60 degrees and beyond are refused.',
     ['inputs'], 'all times, intervals, resolutions and elevation curves; any number of search iterations', 'Tests check a handful of dates at the equator; the search was off by up to an hour away from it.',
     ['env/balloon/solar.py'], [('binary search', 'env/balloon/solar.py:_find_solar_elevation_binary_search'), ('quadrants of the day', 'env/balloon/solar.py:get_next_sunrise_sunset')],
     note='Search proved with a loop invariant for every curve; its callers are proved against its contract on an idealised sun (24 h period, symmetric). That the real sun fits is a bounded stand-in (sampled), not counted as proved.')
prop('C14', 'Physical quantities convert and combine without loss',
     'Every unit-aware quantity reads back the value it was built from in each of its units, adds and subtracts componentwise, and the cross-unit products agree: velocity times duration is distance, power times duration is energy, distance over duration is velocity, like over like is a number. Comparisons order by magnitude (equality of distances and velocities up to a nanometre scale tolerance), and combining or comparing incompatible quantities is refused, never silently accepted. Constructed datetimes are the given moment, in UTC unless another zone is given.',
     ['inputs'], 'all magnitudes and durations, all pairs of operand kinds', 'Tests sample single values per operation.',
     ['utils/units.py'], [('unit classes', 'utils/units.py')])
prop('C15', 'Feature transforms are invertible, monotone and bounded',
     'Rescaling maps the interval ends to 0 and 1 linearly and its inverse recovers the input; the saturating version clips to [0, 1]; squashing maps non-negative values into [0, 1), is increasing, sends the constant to one half and its inverse recovers the input. Empty or reversed intervals, non-positive constants, negative squash inputs and unsquash inputs outside [0, 1) are refused.',
     ['inputs'], 'all reals and all intervals/constants', 'Tests sample values; the out-of-range refusal was dead code.',
     ['utils/transforms.py'], [('transforms', 'utils/transforms.py')])
prop('C16', 'Local offsets map to valid positions on the globe',
     'Converting a local east/north offset around a centre yields a valid, normalised position: the great-circle destination whose distance from the centre is the length of the offset (on a sphere of 6371 km radius) and whose initial heading is that of the offset. A zero offset returns the centre, going north by d raises the latitude by d over the radius, and no offset is refused, not even one straight over a pole. Positions survive pickling and copying unchanged, and a balloon is always where its present offset from its station puts it.',
     ['inputs'], 'all centres and offsets', 'Nine sampled tests.', ['utils/spherical_geometry.py'],
     [('great-circle destination', 'utils/spherical_geometry.py:calculate_latlng_from_offset'), ('pickle registration', 'utils/spherical_geometry.py:pickle_latlng')],
     note='Formula, validity and the distance lemma are proved over the reals with trigonometric identities as axioms; rounding at the poles and pickling are bounded stand-ins (sampled).')
prop('C17', 'Sampled episode parameters stay inside their documented ranges',
     'For every random key, sampled locations have latitude within 10 degrees of the equator and longitude within 175 degrees (two separate draws, each spanning its whole range), sampled times lie inside the given bounds (by default 2011 to 2014) in their time zone, sampled pressures lie between 6500 Pa and the pressure at 50,000 feet, and sampled upwelling infrared between 225 and 315, every rejected draw being replaced by a fresh one. The same key gives the same sample, and unknown distributions are refused.',
     ['inputs'], 'all random keys (as arbitrary draws of the generator) and all bound arguments', 'Tests draw one or a few keys.', ['utils/sampling.py'],
     [('samplers', 'utils/sampling.py')],
     note='Proved against the contract of jax.random (a draw lies in the requested interval, is a function of key and arguments). That jax meets it, and that infrared sampling ends, is a bounded stand-in on real keys. Known finding: the default infrared distribution is degenerate.')
prop('C18', 'True wind is forecast plus noise, at every query',
     'The wind a balloon experiences equals the forecast at that point and time plus the noise model at the same point, and column queries agree elementwise with point queries for every wind field. The simple static field depends only on pressure with its four documented bands, and the true wind is refused before the field has been reset; a reset hands forecast and noise independent keys derived from the given one.',
     ['inputs', 'histories'], 'all positions, pressures, times and column lengths', 'Tests query single points.', ['env/wind_field.py'],
     [('ground truth composition', 'env/wind_field.py')],
     note='Forecast and noise are arbitrary functions of the query. Columns are unrolled to 5 levels (a step of the list comprehension is proved for arbitrary level values, not for arbitrary length).')
prop('C19', 'Gridded forecasts are looked up inside their grid with time boomerang',
     'Gridded wind lookups clip position and pressure to the grid, reflect time back and forth over the forecast horizon so that the lookup time always lies in it, and interpolate between grid points: at a grid point the stored value is returned. Column queries agree with point queries and querying before the field has been generated is refused. A reset generates the field anew from the given key: the published weights decode 64 standard normal numbers drawn with it.',
     ['inputs'], 'all positions, pressures, elapsed times', 'The test module does not run here.', ['env/grid_based_wind_field.py'],
     [('boomerang and interpolation', 'env/grid_based_wind_field.py'), ('sampled field', 'env/generative_wind_field.py')],
     note='scipy interpn is used through its contract (a function of grid, values and the query point, evaluated inside the grid); that it returns the stored values at grid points is a bounded stand-in. Both the gridded and the generative field are covered; the decoder (C38) enters through its contract, and the real one is run with random weights (bounded; the published weights are not in the source tree).')
prop('C20', 'Wind noise is a smooth, seeded, unit-scaled field',
     'The noise at a point is the documented weighted sum of simplex harmonics of the scaled offset coordinates, in both components, using independent generators; it is a function of the seed and the query only. Resetting reseeds it completely and querying before a reset is refused.',
     ['inputs', 'histories'], 'all seeds, positions, pressures, times', 'Only statistical smoke tests.', ['env/simplex_wind_noise.py'],
     [('harmonic sum', 'env/simplex_wind_noise.py')],
     note='opensimplex and jax.random are used through contracts (deterministic functions of seed and point / key); the real generator is a bounded stand-in.')
prop('C21', 'The wind estimator combines forecast and fresh measurements only',
     'The estimator is fed the difference between measured and forecast wind, uses only measurements within six hours of the queried time, and answers a query with forecast plus estimated error at every queried point, in the queried order, with one uncertainty per point: the posterior variance as a share (0 to 1) of the prior variance. With no usable measurement it returns the forecast itself with full uncertainty (1), queries change nothing, and a reset forgets every measurement. The answer does not depend on what was asked before.',
     ['inputs', 'histories'], 'all measurement histories and query columns', 'Two smoke tests.', ['env/wind_gp.py'],
     [('observation store and query', 'env/wind_gp.py:WindGP')],
     note='Histories are unrolled to 3 measurements and columns to 3 levels, all values arbitrary; the regression library is an arbitrary function of data and query (its contract), and the real one is compared with the closed-form posterior of the documented kernel on sampled histories (bounded).')
prop('C22', 'Ambient observation features encode the balloon state',
     'The 16 ambient entries of the observation encode, in fixed order and scaling, pressure, state of charge, sun elevation, day/night phase, heading and distance to the station, last command (one-hot), navigation enabled/paused flags, excess energy, descent cost and pressure ratio, each within its declared range. Decoding an observation returns the encoded values, and invalid wind levels are refused; a pressure counts as expected exactly within the levels of the column.',
     ['inputs'], 'all balloon states', UNTESTED, ['env/features.py'], [('ambient features', 'env/features.py:PerciatelliFeatureConstructor')],
     note='Sun position, solar power, sunrise/sunset, pause flag and the power table enter through their contracts (arbitrary values in range); the entries are proved for every balloon state, for pressures around eight of the 181 levels.')
prop('C23', 'The wind column in the observation is centred on the balloon',
     'The observation always has 1099 entries inside the declared observation space; the wind column is centred so that its middle level is the balloon pressure level, each level carries uncertainty, bearing relative to the station and squashed magnitude of the estimated wind, and levels outside the reachable pressure range carry the fixed unreachable marker. The column is that of the last observation, whatever was seen or asked before.',
     ['inputs'], 'all balloon pressures, winds and reachable ranges', UNTESTED, ['env/features.py'], [('wind column', 'env/features.py:PerciatelliFeatureConstructor')],
     note='The wind estimator is used through its contract (C21). The wind at one level (and position, time) is arbitrary while the others are calm with their own uncertainty; twelve combinations of balloon level, arbitrary level and reachable range are enumerated, and four with arbitrary range ends. Winds at all 181 levels at once are a bounded stand-in (sampled).')
prop('C24', 'The arena advances balloon, clock and observations in lockstep',
     'Each arena step samples the true wind at the balloon before moving it, steps it by exactly one agent time step with the requested command, updates the estimator with the new observation and returns the features. A reset starts a flying balloon within 200 km of the station in any direction alike, at a sampled time and place, made stable in the newly sampled atmosphere, with a fresh wind and a fresh estimator, everything derived from the seed through separate keys. The state set is the state read back, measured and stepped from.',
     ['inputs', 'histories'], 'all seeds, commands and states', UNTESTED, ['env/balloon_arena.py'], [('arena', 'env/balloon_arena.py')],
     note='Callees (samplers C17, stable start C33, simulated step C01-C06, wind C18, estimator C21, jax.random) are used through their contracts. The arena hands out its live state object; a checkpoint is a copy of it (checked on real arenas, bounded).')
prop('C25', 'The reward follows its documented shape and stays in [0, 1]',
     'Inside the station-keeping radius the reward is 1; outside it starts at the documented drop-off and halves with each half-distance, so it never increases with distance; descending is penalised by the documented factor scaled with the power used unless the balloon has excess energy. The reward always lies in [0, 1] for the default parameters.',
     ['inputs', 'configurations'], 'all distances, powers, radii and decay parameters', UNTESTED, ['env/balloon_env.py'], [('reward', 'env/balloon_env.py')],
     note='Halving is a lemma over the proved exponential form (exp(x + y) = exp(x) exp(y) as an axiom).')
prop('C26', 'An environment step is terminal exactly when the flight has ended',
     'Stepping returns observation, reward, a terminal flag and info such that the flag is set exactly when the flight ended by power loss, burst or zero pressure, and info names which and carries the elapsed time. Actions map to descend, stay, ascend in that order, other actions are refused, and what an episode is reset with depends only on the seed and the number of resets since, so environments reset with the same seed produce identical episodes, and no two episodes of a run share their randomness. The environment carries the configured station keeping radius (50 km by default).',
     ['inputs', 'histories'], 'all actions, all states and seeds', UNTESTED, ['env/balloon_env.py'], [('environment', 'env/balloon_env.py')],
     note='The arena is used through its contract (C24): each step leads to an arbitrary state. Identical episodes of real environments are in addition a bounded stand-in.')
prop('C27', 'Evaluation reports exactly what happened in each episode',
     'An evaluation runs one episode per seed, in order, each with freshly seeded environment; each result carries its seed, the sum of the rewards received, the fraction of steps within the radius (in [0, 1]), the final time step (never above the limit), and the flags matching how the flight ended. The agent is begun with the first observation, stepped with every transition exactly once in order and ended once.',
     ['inputs', 'histories'], 'all reward/position/terminal sequences of any length', UNTESTED, ['eval/eval_lib.py'], [('episode loop', 'eval/eval_lib.py')],
     note='Environment (C26) and agent enter through their contracts: arbitrary rewards, positions and endings. One seed: any number of steps by a loop contract; up to three seeds and the recorded flight path: unrolled to one to three steps.')
prop('C28', 'Evaluation suites are partitioned and recombined without loss',
     'Splitting a suite over shards assigns every seed to exactly one shard in order, for every number of shards; merging shard result files yields every result exactly once and only results of the requested agent. Named suites are available under their names, unknown names are refused, and mutating a returned suite never changes the registry.',
     ['inputs', 'configurations'], 'all suite sizes, shard counts and result directories', 'Tests cover two suites.', ['eval/eval.py', 'eval/combine_eval_shards.py', 'eval/suites.py'], [('sharding', 'eval/eval.py')],
     note='Sharding is proved for every number of seeds, shards and shard index (a list of symbolic length). Merging is proved for arbitrary results in ten directory layouts of up to four files (other agents with the same prefix, checkpoint names, earlier merges, more than ten shards); whole jobs on disk are a bounded stand-in. An unsharded result of a checkpoint (dqn_100.json) is named like a shard of dqn: the naming scheme is ambiguous, and such directories are outside the property.')
prop('C29', 'Training runs the requested episodes and reports them faithfully',
     'Training resumes right after the latest saved checkpoint (from the start when there is none), runs exactly the missing iterations of the requested number of episodes each and saves every iteration once under its number; in every episode the agent is begun once with the first observation, stepped with every transition that does not end the flight, and ended once with the final reward and terminal flag. Every metric collector receives begin, every step once and the end of each episode in that order, numbers episodes on from the checkpoint, and reports the rewards and lengths it was told. The environment is rendered once after the first step of each episode and every render period after it.',
     ['inputs', 'histories'], 'all episode counts, episode lengths, checkpoint states and collector sets', UNTESTED, ['train_lib.py', 'metrics/collector_dispatcher.py', 'metrics/console_collector.py', 'metrics/pickle_collector.py', 'metrics/tensorboard_collector.py'], [('training loop', 'train_lib.py')],
     note='Any episode length, any number of iterations and episodes: loop contracts with ghost counts. Environment and agent enter through their contracts. Sums of the tensorboard and pickle collectors are unrolled to three steps and two episodes; the console text is a bounded stand-in (formatting). Known finding: the last reward is reported twice.')
prop('C30', 'Checkpoint bookkeeping finds the latest and never deletes live ones',
     'The latest checkpoint is the highest numbered one, or none; files with other names are ignored. Clean-up removes exactly the checkpoints older than the retention window, never the newest ones, whatever other files are present. What is loaded for an iteration is what was saved for it, saving touches no other file, and the learning agents save, restore and clean up this way.',
     ['inputs', 'fault_sequences'], 'all directory contents and episode numbers', 'Fourteen sampled tests.', ['agents/dopamine_utils.py', 'agents/dqn_agent.py', 'agents/quantile_agent.py'], [('checkpoint names', 'agents/dopamine_utils.py')],
     note='Clean-up is proved for every episode number and window; directory contents are enumerated (seven checkpoint numbers from 0 to 1234567, seventeen near-miss names), since the verifier has no theory of file names. Deletions are recorded by stand-ins and never carried out outside a scratch directory. Not claimed: a save interrupted by a crash leaves a truncated newest file (writing is not atomic, and the tests pin the way the file is opened).')
prop('C31', 'Exploration phases alternate on schedule',
     'The marco-polo wrapper draws at the beginning of every episode, independently and with the configured probability, whether it explores; an exploring episode starts with four hours of the wrapped policy and then alternates two hours of the exploratory agent with four of the policy, counted in agent steps; policy phases and other episodes return the policy action unchanged, exploratory phases that of the exploratory agent. Without a seed, wrappers made at different times draw differently. A pass-through exploration returns the policy action always. The learning agent flies and learns from the explored action while training and its own while evaluating.',
     ['inputs', 'histories'], 'all action sequences of any length', 'Tests run one phase length.', ['agents/marco_polo_exploration.py', 'agents/exploration.py', 'agents/quantile_agent.py'], [('phase counter', 'agents/marco_polo_exploration.py')],
     note='Draws are arbitrary. Every phase is checked step by step up to 1000 steps in two consecutive episodes; any length follows because the state after one cycle is the state at the beginning (proved obligation).')
prop('C32', 'Baseline agents always answer with a legal, documented action',
     'The station seeker commands a move toward a reachable pressure level that no reachable level beats by the published score (down when that level is at higher pressure, up when lower, stay when already there), the score being the published formula of uncertainty, bearing, speed, station distance and level distance; it also returns all scores, zero for unreachable levels. The random walk draws a fresh target pressure at the start of every episode, moves it by a Gaussian step of 0.1666 Pa per second flown at every step, commands a move toward it when it is more than 100 Pa away and stays otherwise, and uses a new random key for every draw. The random agent draws uniformly from exactly the legal actions. The frozen Perciatelli44 agent flies the action with the highest value and refuses other action or observation sizes. The MLP agent acts greedily and takes one SARSA gradient step on the flown transition in training mode only. Every agent can be told that an episode ended, with or without the terminal flag.',
     ['inputs', 'histories'], 'all observations', 'Test modules do not run here.', ['agents/station_seeker_agent.py', 'agents/random_walk_agent.py', 'agents/agent.py', 'agents/perciatelli44.py', 'agents/mlp_agent.py'], [('level search', 'agents/station_seeker_agent.py:find_best_pressure_level'), ('random walk', 'agents/random_walk_agent.py:step'), ('frozen and learning agents', 'agents/perciatelli44.py, agents/mlp_agent.py')],
     note='The level search is proved with a loop contract for any number of levels against an arbitrary rival level, and through the real features for two arbitrary reachable levels at five placements. Draws are arbitrary. The frozen network enters as an arbitrary function. The MLP agent (jax gradients) and the reproducibility of the random walk are bounded stand-ins.')
prop('C33', 'Cold starts put the balloon in a stable valid state',
     'Initialisation to a stable state gives the air load at which the displaced air weighs as much as the whole flight system at the requested pressure (none where it is too heavy anyway, never a negative one), the ambient temperature of the atmosphere there, a gas temperature at which the heat balance is at rest, and volume and superpressure of the envelope model for these values, for the balloon, place, time and radiation given; the cold start takes over exactly these five values and touches nothing else.',
     ['inputs'], 'all vehicles, pressures, positions and times', 'Test module does not run here.', ['env/balloon/stable_init.py'], [('solver', 'env/balloon/stable_init.py'), ('cold start', 'env/balloon/stable_init.py:cold_start_to_stable_params')],
     note='Callees (atmosphere, sun, thermal derivative, envelope model) enter by their contracts. That the search comes to rest is proved for every decreasing affine heat balance and for every one that changes slope where gas and air are equally warm; that it does for the real thermal model (quartic radiation, fractional powers) is a bounded stand-in.')
prop('C34', 'The reachable pressure range is ordered and interpolates its bounds',
     'The accessible pressure range starts where the balloon floats without air in its ballonet (interpolated from the atmosphere) and ends at the altitude floor, each end moved to the linear crossing of the superpressure limit (250 Pa inside the envelope limits) between the first safe sample from that side and the unsafe point before it, so it lies between the two, and the range is ordered whenever a reachable sample is safe; a balloon without a safe sample is refused.',
     ['inputs'], 'all vehicles and superpressure curves', 'Test module does not run here.', ['env/balloon/pressure_range_builder.py'], [('range search', 'env/balloon/pressure_range_builder.py')],
     note='The superpressure is an arbitrary function of pressure (contract of C33), limit and curve values are arbitrary; the search loop is cut by a loop contract at each of the 20 sampled pressures; vehicles are arbitrary where both ends are safe and four representative floating heights otherwise. The atmosphere is one fixed sample of the real one. Real vehicles are a bounded stand-in.')
prop('C35', 'Lookups by name and path resolve deterministically or are refused',
     'Agents, their default configurations and wind fields are resolved from their registered names to the documented components, and other names are refused with ValueError. Network weights come from the given path or are refused with ValueError; without a path they come from the installed package, else from the source tree, else RuntimeError. Configuration is read in the order agent file (given or default), further files, bindings, refuses unknown parameters, and the packaged files are found from every working directory. A training job trains the requested agent in the requested environment, wind field and renderer, for the requested lengths, in its own directory, configured before anything is built. The environment is registered with Gym under its published name exactly once, however often the package is loaded.',
     ['inputs', 'fault_sequences'], 'all names and file availability combinations', 'Tests cover single cases.', ['models/models.py', 'agents/agent_registry.py', 'utils/run_helpers.py', 'train.py', 'env/gym.py'], [('registries', 'agents/agent_registry.py'), ('weights', 'models/models.py'), ('configuration and wind fields', 'utils/run_helpers.py'), ('training program', 'train.py')],
     note='Names, file states and faults are finite enumerations (complete over registered names, availability and error kinds; sampled unknown names). Files and gin are stand-ins in the proofs; real files and the packaged configurations are bounded stand-ins.')
prop('C36', 'Vertical motion follows buoyancy and terminal velocity',
     'In every sub-step a balloon whose displaced air is at least as heavy as the whole flight system rises (its pressure falls) and a heavier one sinks, at the terminal velocity of the net force against the documented drag (coefficient times volume to the two thirds), converted to a pressure change with the local pressure/height slope of the atmosphere taken one pascal in the direction of motion. The ambient temperature is that of the atmosphere at the old pressure, and the gas temperature integrates the thermal model evaluated on the old state.',
     ['inputs'], 'all balloon states, all commands, all sub-step durations', UNTESTED,
     ['env/balloon/balloon.py'], [('buoyancy, ambient and gas temperature', 'env/balloon/balloon.py:_simulate_step_internal steps 2-3')])
prop('C37', 'Renderings show the flight recorded so far',
     'A rendering shows every state given to the renderer since its last reset, once and in order: the flight path in kilometres and the altitude of each pressure in the atmosphere of that state, the balloon at its last position, the path on the map, and the battery level in percent against the time; a state changed after it was recorded is still shown as it was. The picture returned or written to the training summary is the drawn canvas in colour; showing on screen returns nothing, unannounced modes are refused with ValueError leaving everything as it was, and an environment without a renderer renders nothing.',
     ['inputs', 'histories'], 'all positions, pressures, levels and times, histories with and without resets and intermediate renderings', 'No test renders a frame.',
     ['env/rendering/matplotlib_renderer.py', 'env/rendering/renderer.py', 'env/balloon_env.py'],
     [('recording and drawing', 'env/rendering/matplotlib_renderer.py:MatplotlibRenderer'), ('delegation', 'env/balloon_env.py:BalloonEnv.render')],
     note='Histories of up to 3 states after up to 1 forgotten one; the drawing library is a recording stand-in in the proofs and the installed Matplotlib in a bounded unit.')
prop('C38', 'Generated wind fields fit their grid and conserve air',
     'The sizes a wind field grid announces agree with each other for every shape, and its axes are evenly spaced from end to end. Whatever its weights, the generator returns a field of exactly the requested grid whose two wind components are central differences of one flow field (first component along the first axis, second the negative along the second), so what flows into an interior cell flows out of it at every level and time, each level and time having its own flow field enlarged without new extrema. Inputs are squashed oddly and increasingly into (-1, 1); a latent is the mean plus noise of the announced log-variance, noise depends on the key alone, and without reparameterisation the mean is decoded.',
     ['inputs', 'configurations'], 'all grid sizes; all latents, layer outputs and flow fields', 'Tests run one random network and look at shapes and a few sums.',
     ['generative/vae.py'], [('grid arithmetic', 'generative/vae.py:FieldShape'), ('decoder', 'generative/vae.py:Decoder'), ('encoder and squashing', 'generative/vae.py:Encoder'), ('reparameterisation and wiring', 'generative/vae.py:WindFieldVAE')],
     note='Proofs of the decoder are per grid shape (three small shapes) for all values: its layers and the enlargement are arbitrary functions with assumed contracts. The composed model runs with the real library as a bounded stand-in.')
prop('C39', 'Wind speeds and station keeping winds are measured correctly',
     'The speed field has the length of each wind vector at the same grid points, and the mean speed is the mean of these. A column of winds supports station keeping exactly when calm lies in the convex hull of its wind vectors, whatever their order and scale, and the column is left untouched.',
     ['inputs'], 'all winds; columns of any order and scale', 'Tests use one field and four columns.', ['utils/wind.py'],
     [('speeds', 'utils/wind.py:wind_field_speeds'), ('station keeping', 'utils/wind.py:is_station_keeping_winds')],
     note='The hull routines of SciPy are assumed contracts in the proof; compared with the gaps between wind directions on random columns as a bounded stand-in.')
prop('C40', 'Training and evaluation wind fields never mix',
     'The evaluation batch is exactly the last fields of the dataset, as many as configured (also none), the same at every call; training batches are drawn uniformly without replacement from all other fields and only from them, with fresh randomness for every batch, reproducibly for equal seeds. Asking for more training fields than there are is refused. A dataset in files consists of all its shards in their numeric order.',
     ['inputs', 'histories'], 'all dataset sizes, held-out counts, batch sizes, seeds', 'Tests check one split with constant values.', ['generative/dataset_wind_field_reservoir.py'],
     [('split, draws', 'generative/dataset_wind_field_reservoir.py:DatasetWindFieldReservoir')],
     note='jax.random.choice without replacement is an assumed contract in the proof and the installed library in bounded units.')
prop('C41', 'Agent networks return one value per action from the whole observation',
     'The networks of the learning agents flatten the whole observation, pass it through the configured number of layers (hidden ones of the configured width with rectified outputs, one linear output layer) and return one value per action. The quantile network gives each action its own atoms, values each action by the mean of its atoms, and its probabilities are the normalised exponentials over the atoms of that action. The plain and Dopamine forms compute the same values, independently of the layout and numeric type of the observation.',
     ['inputs', 'configurations'], 'all observations and layer outputs; layer counts, actions, atoms', 'Tests check output shapes of two sizes.', ['agents/networks.py'],
     [('plain network', 'agents/networks.py:MLPNetwork'), ('quantile network', 'agents/networks.py:QuantileNetwork')],
     note='Proofs are per network size for all values: layers are arbitrary functions. Real layers as a bounded stand-in.')

prop('C42', 'Learning agents update their networks on schedule',
     'In training mode the DQN and Quantile agents learn exactly on schedule: never before more than the configured number of transitions is stored; then on every step whose number is a multiple of the update period one update, from one fresh replay sample, with the configured loss, discount, optimizer and networks; the target network is replaced by the online network on multiples of the target update period only (after that step\'s update); the loss is reported at its period and the step count grows by one each step. With prioritised replay each sampled transition\'s priority becomes the root of its loss and the reported loss is importance weighted. Every transition flown in training is stored with the action flown; in evaluation mode nothing is stored and no weight changes. An agent asked to start from Perciatelli44 copies every one of its layers to its own place in the network. Modes other than train and eval are refused.',
     ['inputs', 'schedules', 'configurations'], 'all step numbers, periods, replay fill levels, modes', 'Tests run a few steps with one gin configuration.', ['agents/dqn_agent.py', 'agents/quantile_agent.py'],
     [('schedule', 'agents/dqn_agent.py:DQNAgent._train_step'), ('schedule', 'agents/quantile_agent.py:QuantileAgent._train_step'), ('modes', 'agents/dqn_agent.py:DQNAgent.set_mode')],
     note='The Dopamine library (its train function, replay buffer and episode methods) is trusted in the proofs and recorded; bounded units run it for real for both agents; the layer mapping is a bounded unit over a stub of the published model (its weights are not in the source tree).')
