#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.  A check is
claimed when checks/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = 'metsim/metsim.py'
IO = 'metsim/io.py'
D = 'metsim/disaggregate.py'
P = 'metsim/physics.py'
MT = 'metsim/methods/mtclim.py'
PT = 'metsim/methods/passthrough.py'
DT = 'metsim/datetime.py'
CLI = 'metsim/cli/ms.py'
U = 'metsim/units.py'
C = 'configurations'
I = 'inputs'
S = 'schedules'
H = 'histories'
F = 'fault_sequences'
K = 'crash_points'

# id, title, statement, over, quantifier, why_tests_cant, mechanisms, technique, note
T = []


def prop(i, title, statement, over, text, why, mech, technique, note,
         level='model_checking', observe=None):
    T.append(dict(i=i, title=title, statement=statement, over=over, text=text,
                  why=why, mech=mech, technique=technique, note=note,
                  level=level, observe=observe))


prop('C01', 'Output does not depend on how the domain is cut into chunks',
     'A run writes the same values at every cell, time and variable, with the same coordinates, whatever chunk sizes (of any or all of the spatial dimensions, in any order) the domain is divided into. It does not depend either on which scheduler (sync, threads, processes, distributed) or on how many workers process the chunks.',
     [C, S], 'every chunk size of every spatial dimension of small grids, unstructured and curvilinear domains, three masks, four option sets, every scheduler and 1-4 workers',
     'The tests run one or two fixed chunkings and compare with nothing cut otherwise; off-by-one errors at the last, partial chunk or in one layout go unseen.',
     [('run slices the domain by chunks', M + ': MetSim._run, MetSim.slices, chunk_domain'), ('each worker reads its slice', M + ': wrap_run_slice, MetSim.load_inputs'), ('each worker writes its slice', M + ': MetSim.write_chunk')],
     'explicit-state enumeration of chunkings x layouts x masks x schedulers on the real program, differential oracle (uncut run, bitwise)',
     'Exhaustive over all chunkings of 5-6 cell domains in 5 layouts; process-based schedulers on a subset. Trusts netCDF/xarray for reading outputs back.')
prop('C02', 'Every interleaving of workers writes what a sequential run writes',
     'However the workers of a run are interleaved, every output file ends up with exactly the values a sequential run gives; no write is lost, overwritten or misplaced. The run always terminates (no deadlock), and two workers are never inside the netCDF library at the same time.',
     [S], 'all schedules of 2-3 worker threads with a bounded number of preemptions at source-line, lock and library-call granularity; all writers held in their critical section for worker processes',
     'A test observes the one schedule the operating system happens to choose; races on shared parameters or files show up once in many runs.',
     [('reads and writes are serialised', M + ': IO_LOCK, MetSim.load_inputs, MetSim.write_chunk, wrap_run_slice'), ('write locks per output file', M + ': MetSim._run, get_write_lock'), ('worker objects have parameters of their own', M + ': MetSim.__init__')],
     'stateless model checking of the real program under a controlled scheduler with preemption bounding, differential oracle',
     'All schedules within the stated preemption bound of five driver configurations. Does not model preemption inside C extensions other than the netCDF calls.')
prop('C03', 'Active cells are independent; inactive cells are never computed',
     'The output of an active cell is a function of that cell\'s inputs alone: it equals the run of that cell by itself, whatever other cells hold and wherever the mask has holes. Cells outside of the mask are missing in every variable, and whatever their inputs hold neither stops the run nor changes any other cell.',
     [C, I], 'all 63 mask patterns of six cells, five encodings of the mask, every input of every cell perturbed one at a time, invalid values in inactive cells',
     'Tests use one mask and look at means over the domain; leakage between cells needs particular masks and neighbours.',
     [('cells are picked by the mask', M + ': MetSim.run_slice'), ('each cell is run on its own', M + ': wrap_run_cell')],
     'exhaustive enumeration of masks and single-input perturbations on the real program, single-cell oracle (bitwise)',
     'Exhaustive over masks of 6 cells and over single-input perturbations.')
prop('C04', 'What a run writes does not depend on what the process did before',
     'Two runs with the same configuration and inputs write the same files, including attributes, no matter which other MetSim objects were created, run or failed before or in between in the same process. The parameters passed in are not modified by creating or running a simulation.',
     [H], 'all sequences, up to a depth, of creating objects, running them in any order, reading configurations and failing runs in one process',
     'Tests run every configuration once per process in a fixed order; state leaking through class attributes needs a particular earlier operation.',
     [('parameters per object', M + ': MetSim.__init__'), ('defaults and attributes are class or module level', M + ': MetSim.params, available_outputs, default_out_vars')],
     'explicit-state search over operation histories in one process, differential oracle (fresh process, raw files)',
     'All histories up to the depth given in the evidence over the stated alphabet of operations.')
prop('C05', 'Output covers the simulated period: every step once, in order',
     'For every permitted time step the output has exactly one record for each step of the period from start to stop (both days included), in order, labelled with the step\'s start or, if so configured, its end. Every variable has a value at every active cell and step, whichever way start and stop are written.',
     [C, I], 'all 25 permitted time steps, both labellings, periods of 1-5 days across leap days, year and century ends, six notations of start and stop',
     'Tests run a few time steps over one fixed period and check only counts.',
     [('time axis', M + ': MetSim.setup_output, _get_output_times'), ('disaggregation lengths', D + ': disaggregate'), ('dates', DT + ': date_range')],
     'exhaustive enumeration of (time step, labelling, period, notation) on the real program, closed-form oracle',
     'Exhaustive within the lists stated in the evidence.')
prop('C06', 'Splitting the output over files loses, repeats and changes nothing',
     'For any output frequency the files together hold each step of the run exactly once with the values of the unsplit run. Each file holds one interval of the frequency and is named after the prefix and its first and last steps, and no file is overwritten by another.',
     [C], 'all of 30 output frequencies (hours to years, multiples, anchored) x time steps x labellings x start days',
     'Tests use at most one output frequency; collisions of names and edges of intervals need particular frequencies and start days.',
     [('grouping of times into files', M + ': MetSim.setup_output, _get_output_times, _get_output_filename'), ('writing the part of a chunk that belongs to each file', M + ': MetSim.write_chunk')],
     'exhaustive enumeration of frequencies x steps x periods on the real program, differential oracle (unsplit run)',
     'Exhaustive within the lists; intervals are those of pandas.Grouper.')
prop('C07', 'Configurations that cannot be honoured are refused; the rest run',
     'A time step that does not divide the day (or is neither sub-daily up to six hours nor daily), an unknown method, format, precision, precipitation or longwave type, a missing file, or an output the method does not provide is refused with an error and leaves no output values behind. Every documented value, in any capitalisation documented as equivalent, is accepted and run.',
     [C], 'every time step from -10 to 1500 minutes; every listed value of every enumerated option; every output variable for each method and time step',
     'Tests check one or two invalid values; the space of option values is what a user reaches.',
     [('validation', M + ': MetSim._validate_setup'), ('dispatch by name', D + ', ' + P + ', ' + M + ': MetSim.methods')],
     'exhaustive enumeration of option values on the real program, accept/refuse oracle from the documentation',
     'Exhaustive over the alphabets stated in the evidence.')
prop('C08', 'A configuration means the same in INI, YAML, dict or command line',
     'The same settings give the same output whether they are read from an INI file, a YAML file, passed as a dictionary, or given on the command line. Every setting has an effect: none is dropped, mistyped or overridden on the way.',
     [C], 'every single setting and every pair of settings of the list, in each notation, plus variable renamings in every section',
     'Tests read one INI and one YAML example and never compare them with each other.',
     [('INI', IO + ': read_ini_config'), ('YAML', IO + ': read_yaml_config'), ('command line', CLI)],
     'exhaustive enumeration of option singles and pairs x notations on the real program, differential oracle',
     'Exhaustive over singles and pairs of the listed settings.')
prop('C09', 'The same forcings give the same output in every input format',
     'Forcings given as netCDF, ASCII, binary or in-memory data, with any order of files and columns that the configuration describes, give the same output. Scaling and signedness of binary files are honoured exactly and each file is used for the cell it is named after.',
     [C, I], 'all orders of the list of files, all orders of the four variables, extra columns, long records, directories, masks and option sets for each format',
     'Tests read one file per format with the default order of variables.',
     [('readers', IO + ': read_ascii, read_binary, read_netcdf, read_data'), ('file lookup by latitude and longitude', M + ': MetSim.load_inputs, ' + IO + ': process_vic'),],
     'exhaustive enumeration of format variants on the real program, differential oracle (netCDF run, bitwise)',
     'Exhaustive over the permutations stated; values are representable in every format.')
prop('C10', 'Inputs are matched to cells by coordinate, never by position',
     'The order of coordinates and of dimensions in the forcing, state and domain files does not change the output at a coordinate. Files may cover more cells than the domain; the surplus has no effect.',
     [I, C], 'all orders of latitudes and longitudes and all orders of dimensions of each file, supersets of cells on each side',
     'Tests use files that already have the order of the domain.',
     [('alignment', M + ': MetSim.load_inputs, ' + IO + ': read_netcdf, read_domain, read_state'), ('selection', IO + ': read_data')],
     'exhaustive enumeration of coordinate and dimension orders on the real program, differential oracle by coordinate',
     'Exhaustive for 2x3 grids; coordinates are equal, not merely near.')
prop('C11', 'Exactly the requested period of a longer record is used',
     'A run over part of a longer forcing record gives the same output as one whose forcing file holds only that part, wherever the period lies in the record. A period that the forcings, or the 90 days before it that the state does, not cover is refused rather than filled in or silently shortened.',
     [I, C], 'every window of a record of several days for each method and format; every single day missing from forcings or state',
     'Tests use records that begin and end with the simulated period.',
     [('selection of dates', IO + ': read_netcdf, read_data, read_state'), ('checks', M + ': MetSim._validate_force_times, _validate_setup')],
     'exhaustive enumeration of windows and of missing days on the real program, differential oracle (trimmed files)',
     'Exhaustive over windows of short records.')
prop('C12', 'Disaggregated precipitation conserves every day\'s total',
     'The precipitation of the steps is non-negative and sums, over a cell\'s local day, to the daily amount given, for each disaggregation method, storm and time step (storms that reach midnight are cut off there and scaled to the amount of their day). Dry days are dry in every step.',
     [I, C], 'all windows of three day types (dry, light, heavy, ...) x time steps x methods x storm parameters x time zones',
     'Tests compare one record with stored values; conservation must hold for every sequence of days and storm.',
     [('uniform, triangle and mix', D + ': prec')],
     'exhaustive enumeration of day-type sequences (De Bruijn) x steps x methods on the real program, reference model and conservation invariant',
     'Exhaustive over windows of day types of the alphabet.')
prop('C13', 'Sub-daily temperature honours each day\'s extremes',
     'Sub-daily temperatures stay within the range of the daily minima and maxima around them. They follow a shape-preserving (monotone piecewise cubic) curve through each day\'s minimum and maximum, placed at the times that the course of the sun at the cell determines, sampled at the end of each step. This holds for every latitude (polar day and night included) and time step.',
     [I, C], 'all windows of day types (normal, inverted ranges across days, flat, jumps) x latitudes x time steps',
     'Tests check one location and the mean.',
     [('times of extremes', D + ': set_min_max_hour'), ('interpolation', D + ': temp')],
     'exhaustive enumeration of day-type sequences x latitudes x steps on the real program, independent reference model and range invariant',
     'Exhaustive over windows of day types of the alphabet; the reference is an independent re-implementation.')
prop('C14', 'Humidity variables are mutually consistent and physical',
     'Vapor pressure is positive and never exceeds saturation, relative humidity lies between 0 and 100 percent and is the ratio of vapor pressure to saturation at the step\'s temperature, and specific humidity follows from vapor and air pressure. Air pressure follows the standard atmosphere for the cell\'s elevation and temperature.',
     [I, C], 'all windows of day types (dry, saturated, freezing, hot) x elevations x latitudes x time steps, records of one day and more',
     'Tests check ranges on one record; consistency must hold for every day sequence, including ends of the record.',
     [('vapor pressure', D + ': vapor_pressure'), ('relative and specific humidity, pressure', D + ': relative_humidity, specific_humidity, pressure'), ('svp', P + ': svp')],
     'exhaustive enumeration of day-type sequences x cells on the real program, independent reference model and invariants',
     'Exhaustive over windows of day types of the alphabet.')
prop('C15', 'Sub-daily shortwave conserves the daily mean and follows the sun',
     'Shortwave radiation of the steps is non-negative, zero while the sun is down, and averages over a cell\'s solar day to the daily value. Its course within the day is that of the potential radiation at the cell.',
     [I, C], 'all latitudes of the list (poles, polar circles, equator), days of the year, longitudes, time steps and offsets',
     'Tests check one location.',
     [('disaggregation', D + ': shortwave'), ('potential radiation', P + ': solar_geom')],
     'exhaustive enumeration of cells x days x steps on the real program, independent reference model and conservation invariant',
     'Exhaustive over the lists of cells, days and steps.')
prop('C16', 'Longwave and cloud cover follow the chosen parameterisation',
     'Longwave radiation is that of the selected clear-sky emissivity and cloud correction for the step\'s temperature, vapor pressure and cloud cover, for every combination. Cloud cover is a fraction between 0 and 1.',
     [C, I], 'all pairs of longwave and cloud types x day types x time steps x cells',
     'Tests check that a run finishes for some of the types.',
     [('longwave', D + ': longwave'), ('cloud cover', D + ': tskc, ' + MT + ': tskc')],
     'exhaustive enumeration of parameterisation pairs x day-type sequences on the real program, independent reference model',
     'Exhaustive over types and over windows of day types.')
prop('C17', 'UTC output is local output shifted by the cell\'s longitude',
     'With UTC output every cell\'s series is that of the local-time run moved by the offset of the cell\'s longitude, to the step, in the right direction, for all variables. Cells near and on the date line and in any longitude convention get the right offset.',
     [C, I], 'longitudes in both conventions including the date line x time steps x variables',
     'Tests have one location with UTC.',
     [('offset', D + ': disaggregate (utc_offset)')],
     'exhaustive enumeration of longitudes x time steps on the real program, differential oracle (local-time run)',
     'Exhaustive over the list of longitudes and steps; the ends of the record, where the shift needs days beyond it, are compared with the reference model only.')
prop('C18', 'Solar geometry is right for every latitude and day',
     'Day length, potential radiation and their sub-daily course follow the formulas for the cell\'s latitude, elevation and day of the year, for every day including leap days. Day length is between 0 and 24 hours, symmetric between hemispheres half a year apart, and constant 0 or 24 hours in polar night and day.',
     [I], 'all 366 days x latitudes from pole to pole x elevations',
     'Tests compare one latitude with stored values.',
     [('solar_geom', P + ': solar_geom')],
     'exhaustive enumeration of days x latitudes x elevations on the real code, independent reference model and invariants',
     'Exhaustive over all days for a list of latitudes.')
prop('C19', 'Daily estimates follow MTCLIM for every sequence of days',
     'Daily shortwave, cloud cover, vapor pressure and potential evaporation are those of the MTCLIM algorithm for the day\'s and the preceding 90 days\' temperature and precipitation, with the configured parameters. They are finite and within physical range for every valid input.',
     [I, C], 'all windows of day types x cells x values of each parameter, dry and wet and snowy states',
     'Tests compare one record with stored values.',
     [('mtclim', MT + ': run, shortwave, vapor_pressure, tskc, pet'), ('90 day records', M + ': MetSim._aggregate_state')],
     'exhaustive enumeration of day-type sequences x parameters on the real program, independent reference model',
     'Exhaustive over windows of day types; the reference is an independent re-implementation.')
prop('C20', 'A run continued from a restart equals the uninterrupted run',
     'Splitting a period at any day and continuing with the state given by the 90 preceding days of forcings yields the same daily output as the run over the whole period, and the same sub-daily output away from the split (where neighbouring days are needed).',
     [H, C], 'every split day, and every split into three parts, of short records, for daily and sub-daily output',
     'Tests never compare two runs.',
     [('state', M + ': MetSim._aggregate_state, ' + IO + ': read_state')],
     'exhaustive enumeration of split points on the real program, differential oracle (whole run)',
     'Exhaustive over split points; MTCLIM iterates to a tolerance, so daily values are compared to that tolerance where it applies.')
prop('C21', 'Passthrough keeps the daily values it is given',
     'In passthrough runs each variable the user supplies is used as given: daily output equals the input, and sub-daily output conserves the daily means of what it is made from. Only what is not supplied is estimated.',
     [C, I], 'every subset of the optional inputs x time steps',
     'Tests run one passthrough configuration and compare nothing with the input.',
     [('passthrough', PT + ': run'), ('choice of method', M)],
     'exhaustive enumeration of subsets of supplied inputs on the real program, oracle: the input itself and the reference model',
     'Exhaustive over subsets of optional inputs.')
prop('C22', 'Output is in the units, under the names and with the type asked for',
     'Choosing other units for an output converts its values by the factor (and offset) between the units, renaming it changes nothing but its name, and the output type changes nothing but the precision. The units attribute of each variable is that of its values.',
     [C], 'every supported unit of every output variable for daily and sub-daily output, names, both precisions',
     'Tests compare a few conversions, each alone.',
     [('conversion', U + ', ' + M + ': run_slice, converters'), ('attributes', M + ': MetSim.setup_netcdf_output')],
     'exhaustive enumeration of units x variables x precisions on the real program, differential oracle (default units)',
     'Exhaustive over units. One known finding is listed (sub-daily vapor_pressure).')
prop('C23', 'Outputs at different time steps of the same inputs agree',
     'Runs at different time steps describe the same weather: aggregating the finer output over the coarser step gives the coarser output\'s precipitation exactly, and the other variables up to interpolation within the step.',
     [C], 'all pairs of time steps that divide one another x methods',
     'Tests look at one time step at a time.',
     [('disaggregation to minutes and back', D + ': disaggregate, prec, temp, shortwave')],
     'exhaustive enumeration of pairs of time steps on the real program, aggregation oracle',
     'Exhaustive over pairs of steps.')
prop('C24', 'A failure never looks like success',
     'If reading, computing or writing fails at any point of a run, including the loss of a worker, the run raises an error; it never returns normally with values missing. A failed run does not prevent the next one in the same process, which then writes the complete and right output over whatever was left behind.',
     [F, K], 'a fault at every single call of the I/O library and of each processing stage during a run, for each scheduler; workers killed at every stage',
     'Tests inject no faults.',
     [('errors of workers', M + ': MetSim.run, MetSim._run, wrap_run_slice'), ('locks released', M + ': IO_LOCK, MetSim.write_chunk'), ('output files recreated', M + ': MetSim.setup_netcdf_output')],
     'enumeration of all single-fault points of a run on the real program (fault injector), oracle: error raised, clean rerun equals reference',
     'Exhaustive over single faults at the intercepted calls. Known findings: a distributed worker killed while it holds a write lock leaves the run hanging.', level='fault_enumeration')
prop('C25', 'Calendars without leap days are simulated day by day',
     'Forcings in a noleap (365_day) calendar give an output with every day of that calendar exactly once, and no February 29. The values are those of the same days in a standard calendar.',
     [C, I], 'noleap and standard calendars x periods around Feb 28 of leap and other years and year ends x time steps x labellings',
     'Tests have one noleap configuration and check only that it runs.',
     [('calendar-aware dates', DT + ': date_range, ' + M + ': MetSim.setup_output, load_inputs'), ('days', IO + ': read_netcdf')],
     'exhaustive enumeration of periods x calendars on the real program, closed-form and differential oracle',
     'Exhaustive within the lists; 360_day and all_leap cannot be represented by the program.')
prop('C26', 'Inputs are left alone and a rerun replaces the output',
     'A run does not change its input files, configuration or in-memory data. Running again into the same directory leaves the complete and exact output of the last run in the files it names, whatever earlier runs with other settings left there, and does not touch any other file.',
     [H], 'all sequences of two and three runs over an alphabet of configurations into one directory, with all inputs compared byte by byte',
     'Tests use a fresh directory per run and do not look at inputs afterwards.',
     [('inputs opened for reading', IO), ('output files created anew', M + ': MetSim.setup_netcdf_output')],
     'explicit-state search over run histories into one directory on the real program, byte comparison',
     'All histories up to the depth in the evidence.')
prop('C27', 'Constant variables act exactly like a constant input',
     'A variable given as a constant has that value on every day at every active cell, exactly as if the forcing file held it, whatever the type of the file\'s other values. Where the forcing file holds the variable as well, the constant is used.',
     [C], 'every variable that can be constant x values x methods x file types',
     'Tests set one constant and check nothing.',
     [('constant_vars', M + ': MetSim.load_inputs')],
     'exhaustive enumeration of constants on the real program, differential oracle (forcing file with the value)',
     'Exhaustive over variables and listed values.')
prop('C28', 'Each storm falls where its month\'s parameters put it',
     'With triangular (or mixed) disaggregation a day\'s precipitation forms a triangle with the duration and time of peak given for the cell and that day\'s month; what would pass midnight is cut off, and the rest scaled to the day\'s amount. In mixed mode, days whose minimum temperature is below freezing are spread uniformly over the day instead.',
     [I, C], 'every month x durations x peaks (near midnight included) x time steps',
     'Tests compare one record with stored values, within one or two months.',
     [('prec triangle', D + ': prec'), ('monthly parameters', M + ': MetSim.convert_monthly_param, ' + IO + ': read_domain')],
     'exhaustive enumeration of months x storm shapes x steps on the real program, closed-form oracle',
     'Exhaustive over the lists.')
prop('C29', 'Inputs that cannot be used are refused, never silently propagated',
     'A missing or infinite value in the forcings or the state of an active cell, a maximum temperature below the minimum in its forcings, and a required variable that is not in the files stop the run with an error, wherever in the inputs it is. The output of a run that ends normally never contains a missing value at an active cell.',
     [I], 'each kind of bad value at every position (variable, day, cell) of forcings, state and domain, for each method, format and chunking',
     'Tests put one bad value at one place.',
     [('checks of inputs', M + ': MetSim.run_slice, wrap_run_cell')],
     'exhaustive enumeration of single bad values over all positions on the real program, oracle: refused, or complete output',
     'Exhaustive over single bad values.')
prop('C30', 'Wind and cloud cover keep their daily value through the day',
     'Sub-daily wind speed and cloud cover equal the daily value at every step of the cell\'s local day, for every time step.',
     [I, C], 'all windows of day types x time steps x offsets',
     'Tests check that a run finishes.',
     [('wind, tskc', D + ': wind, tskc')],
     'exhaustive enumeration of day-type sequences x steps on the real program, closed-form oracle',
     'Exhaustive over windows of day types.')
prop('C31', 'A run follows the parameters its object has when it is run',
     'Whatever was done with a MetSim object before (inputs looked at or loaded, parameters set, earlier runs, output opened), run() writes exactly what a new object made with the present parameters writes: values, times, names, units and attributes; parameters that a new object refuses are refused.',
     [C, H], 'operation sequences on one object: parameter settings, looks at inputs, loads, runs and openings of output',
     'Tests make an object, run it once and never set a parameter afterwards.',
     [('modifiable parameters', M + ': module documentation, MetSim.run, _run, load, _validate_setup'), ('times and units of output', M + ': MetSim.__init__, _get_output_times, _update_unit_attrs')],
     'explicit-state search over operation sequences on one real object, differential oracle (a new object)',
     'All sequences of the forms listed in the check, over 25 parameter settings.')

EXTRA = os.path.join(HERE, 'tools', 'extra.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


def main():
    files = set()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for t in T:
            ff = sorted({w for _, m in [(None, ' '.join(
                x[1] if len(x) > 1 else x[0] for x in t['mech']))]
                for w in m.replace(',', ' ').replace(':', ' ').split()
                if w.startswith('metsim/')})
            files |= set(ff)
            a = {'files': ff, 'mechanism': [
                {'name': x[0], 'where': x[1] if len(x) > 1 else x[0]}
                for x in t['mech']], 'hook_needed': None}
            assert len(t['title']) <= 80, t['title']
            f.write(json.dumps({
                'id': t['i'], 'title': t['title'], 'statement': t['statement'],
                'quantifier': {'over': t['over'], 'text': t['text']},
                'why_tests_cant': t['why'], 'anchors': a}) + '\n')
    checks, na = [], []
    for t in T:
        if os.path.exists(os.path.join(HERE, 'checks', t['i'] + '.py')):
            checks.append({
                'property': t['i'],
                'quick_cmd': './run.sh %s --tier quick' % t['i'],
                'thorough_cmd': './run.sh %s --tier thorough' % t['i'],
                'evidence_file': 'evidence/%s.json' % t['i'],
                'technique': t['technique'], 'level': t['level'],
                'level_note': t['note']})
        else:
            na.append({'property': t['i'],
                       'reason': 'the check is not built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh',
                   'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


main()
