"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
import pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe,
         state=None):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            **({'state': state} if state else {}),
            'observe_at': observe, 'hook_needed': None},
    })


K, M, T, U, I, F = (f'empymod/{x}.py' for x in (
    'kernel', 'model', 'transform', 'utils', 'io', 'filters'))
MAIN = 'empymod/__main__.py'
FD, TT = 'empymod/scripts/fdesign.py', 'empymod/scripts/tmtemod.py'

prop('C01', 'Layered-earth fields are the solution of Maxwell\'s equations',
     """For every layered model with vertical transverse isotropy in resistivity,
     permittivity and permeability, every source and receiver depth (any layer,
     also on an interface), every offset and azimuth and all 36
     source-receiver combinations, the frequency-domain dipole field equals the
     field obtained by solving Maxwell's equations for that model.
     The agreement is at the level of floating-point rounding once the same
     digital filter is used for the Hankel transform, and at filter accuracy
     against a converged quadrature.""",
     ['inputs'], """all models (number of layers, contrasts, thicknesses,
     anisotropies, air or not), depths of source and receiver, offsets,
     azimuths, frequencies and source-receiver combinations""",
     """Tests compare a few fixed models with stored results of earlier runs or
     of other codes; most (source layer, receiver layer, combination,
     anisotropy) tuples are never compared with anything.""",
     [K, M, T], [('wavenumber', K), ('greenfct', K), ('reflections', K),
                 ('fields', K), ('angle_factor', K), ('fem', M)],
     ['return values of the dipole modelling call'])

prop('C02', 'Source-receiver reciprocity holds for all field components',
     """Exchanging source and receiver (positions, orientations and type) leaves
     electric-electric and magnetic-magnetic responses unchanged and flips the
     sign of electric-magnetic responses, for every model, position and
     orientation, in frequency and time domain.
     It holds for infinitesimal dipoles and for finite-length, arbitrarily
     rotated bipoles.""",
     ['inputs'], """all models, positions, component pairs, orientations,
     bipole lengths, frequencies and times""",
     """Tests exchange source and receiver for a handful of fixed setups; the
     layer-dependent branches of the kernel make it a statement about all
     pairs of layers.""",
     [K, M], [('greenfct (reciprocity switch)', K), ('check_ab', U),
              ('get_abs', U), ('get_geo_fact', U)],
     ['pairs of modelling results with exchanged source and receiver'])

prop('C03', 'Fields depend only on relative position and orientation',
     """Shifting source, receiver and all interfaces together by any vector
     leaves every result unchanged; rotating the whole survey about the
     vertical axis rotates the field components accordingly, and mirroring it
     in a vertical plane changes only the signs symmetry requires.
     The same holds when the survey consists of many sources and receivers.""",
     ['inputs'], """all models, surveys, shifts, rotation angles and component
     pairs""",
     """Tests sit at or near the origin with sources on an axis; quadrant and
     sign errors in angle handling or a missing depth reference need arbitrary
     shifts and rotations to show.""",
     [U, K, M], [('get_off_ang', U), ('angle_factor', K),
                 ('get_layer_nr', U), ('get_azm_dip', U)],
     ['pairs of modelling results before and after the motion'])

prop('C04', 'Fictitious layers never change a result',
     """Splitting any layer with an interface that carries no contrast, merging
     equal layers, or appending layers of the same material at top or bottom
     leaves the field unchanged, wherever source and receiver are; a stack of
     identical layers gives the full-space field.
     Layers do not influence a field continuous across an interface: tangential
     E and H and normal current and flux are continuous when the receiver
     passes through an interface.""",
     ['inputs'], """all models, places and numbers of fictitious interfaces
     relative to source and receiver, component pairs, frequencies""",
     """Each insertion changes which layer indices and recursion branches are
     used; tests have one or two such splits.""",
     [K, U], [('reflections', K), ('fields', K), ('greenfct', K),
              ('get_layer_nr', U), ('check_model', U)],
     ['pairs of modelling results with equivalent models'])

prop('C05', 'Depth order, infinite bounds and axis direction are conventions',
     """Giving the interfaces from top to bottom or from bottom to top (with the
     layer parameters in the same order), with or without explicit infinite
     bounds, yields the same field; using a z-axis that points up
     instead of down yields the field with the signs that the change of the
     coordinate system implies.
     A source or receiver on an interface belongs to the upper layer in the
     positive-down system (to the layer on the smaller-z side).""",
     ['inputs', 'configurations'], """all models, ways of writing the depths
     (increasing or decreasing, one or both or no infinity), surveys, all
     component pairs and both modelling entry points""",
     """Tests cover a couple of layouts with one component; every layer
     parameter has to be re-ordered consistently, for any number of layers,
     including hooks that see the ordered model.""",
     [U, M], [('check_model', U), ('get_layer_nr', U)],
     ['pairs of modelling results with equivalent conventions'])

prop('C06', 'Direct field may be computed in either domain',
     """Computing the direct field analytically in the space-frequency domain or
     in the wavenumber domain gives the same total field within the accuracy
     of the transform, and excluding it gives exactly the total minus the
     direct field when source and receiver share a layer, and the
     total field when they do not.
     For a homogeneous anisotropic full-space the analytical field solves
     Maxwell's equations for all 36 source-receiver combinations.""",
     ['inputs', 'configurations'], """all models, positions, components,
     anisotropies, frequencies, the three settings of the direct field""",
     """Tests check stored values for a few isotropic or mildly anisotropic
     settings; the analytical and the wavenumber expressions are separate code
     for each component pair.""",
     [K, M, U], [('fullspace', K), ('greenfct (direct field)', K),
                 ('fem', M), ('check_model (isfullspace)', U)],
     ['modelling results for the three settings', 'analytical full-space'])

prop('C07', 'Diffusive half-space solutions are correct and add up',
     """The analytical diffusive solutions for full-space and half-space agree
     with layered modelling in the diffusive limit for every electric component
     pair, in frequency, Laplace and time domain; the time-domain impulse
     and step responses are consistent with each other and with the
     frequency domain.
     The parts returned by the split solutions add up to the complete one, and
     the TE and TM parts add up to the direct and reflected parts.""",
     ['inputs'], """all positive depths, offsets, azimuths, resistivities,
     anisotropies, frequencies, times, component pairs and signal types""",
     """Tests compare two fixed points with stored results and one numerical
     run; the closed-form expressions have separate branches for each
     component, domain and depth combination.""",
     [K, M], [('halfspace', K), ('analytical', M), ('check_solution', U)],
     ['return values of the analytical modelling call'])

prop('C08', 'All Hankel transform methods yield the same field',
     """Digital filters (each available filter; standard, lagged and splined
     evaluation), quadrature with extrapolation and adaptive quadrature all
     give the same frequency-domain field within their accuracy, for any
     component pair and any set of offsets and azimuths.
     Applied to kernels with known closed-form transform, each
     method reproduces the closed form.""",
     ['inputs', 'configurations'], """all methods and their settings, models,
     offsets (single, many, repeated, unordered), azimuths and component
     pairs""",
     """Tests compare each method with stored values in one setting; mixtures of
     offsets with different azimuths, unordered or repeated offsets and
     sampled variants are hardly touched.""",
     [T, U, F], [('hankel_dlf', T), ('hankel_qwe', T), ('hankel_quad', T),
                 ('dlf', T), ('qwe', T), ('quad', T), ('get_dlf_points', T),
                 ('check_hankel', U)],
     ['modelling results with different Hankel settings'])

prop('C09', 'All Fourier transform methods yield the same time-domain response',
     """Digital filters (each available sine/cosine filter, lagged or splined),
     quadrature with extrapolation, logarithmic and standard fast Fourier
     transforms give the same time-domain response within their accuracy, for
     impulse, switch-on and switch-off responses at any set of times.
     Applied to frequency functions with known closed-form time functions, each
     method reproduces them.""",
     ['inputs', 'configurations'], """all methods and settings, signals, time
     sets (single, many, unordered), component pairs, models""",
     """Tests compare each method with stored results at a few times; the
     required frequencies, the interpolation and the sine/cosine choice
     interact for arbitrary times.""",
     [T, U, M], [('fourier_dlf', T), ('fourier_qwe', T),
                 ('fourier_fftlog', T), ('fourier_fft', T),
                 ('get_fftlog_input', T), ('check_time', U), ('tem', M)],
     ['time-domain modelling results with different Fourier settings'])

prop('C10', 'Results of a batch equal the individually computed results',
     """Modelling several sources, receivers and frequencies or times in one
     call gives, at the documented position of the output array, exactly what a
     call with only that source, receiver and frequency or time gives.
     Looping settings (over frequencies, over offsets), squeezing, duplicates
     and the order of the entries change nothing but layout.""",
     ['inputs', 'configurations'], """all numbers and arrangements of sources and
     receivers (equal or different depths, dipoles or finite bipoles, broadcast
     coordinates or angles), frequencies, times and looping settings""",
     """Tests pin a few arrangements; four different loop structures and
     index formulas are selected by the numbers of sources, receivers and
     distinct depths.""",
     [M, U, T], [('bipole (source/receiver loops)', M), ('dipole', M),
                 ('fem', M), ('check_loop', U), ('check_bipole', U),
                 ('get_off_ang', U)],
     ['batch result versus single results'])

prop('C11', 'Arbitrary bipoles follow from the elementary dipoles',
     """The response of a source and receiver of arbitrary azimuth and dip is
     the sum of the elementary component responses weighted with the direction
     cosines; a finite-length bipole gives the length-average of dipoles along
     it, weighted by the given strength times its length (or normalised
     without strength), and converges with the number of points.
     Magnetic-flux and current-density sources or receivers differ from
     the magnetic-dipole or electric-field ones by exactly the material factor
     at their position.""",
     ['inputs', 'configurations'], """all orientations, lengths, depths,
     strengths, integration orders and source and receiver types, mixed between
     source and receiver""",
     """Tests check axis-parallel or selected orientations; which elementary
     combinations are skipped or combined depends on the angles of all
     sources and receivers in the call.""",
     [M, U], [('bipole', M), ('get_abs', U), ('get_geo_fact', U),
              ('get_azm_dip', U), ('check_bipole', U)],
     ['bipole results versus weighted sums of dipole results'])

prop('C12', 'Time-domain responses are mutually consistent and causal',
     """For every model and survey the switch-on and switch-off responses add up
     to the static response for electric sources and receivers, the switch-on
     response starts at the early-time limit and its time derivative is the
     impulse response, and the derivative of the switch-off response is its
     negative.
     Time-domain fields are linear in the source and real valued.""",
     ['inputs'], """all models, components, offsets, times, and Fourier
     methods""",
     """Tests compare signals separately with stored data; relations between
     signals over arbitrary times and components are not checked.""",
     [M, T, U], [('tem', M), ('check_time', U), ('fourier_dlf', T)],
     ['time-domain results of the three signals and the static limit'])

prop('C13', 'Modelling calls have no memory and leave their inputs alone',
     """No modelling, analytical, transform, checking or file routine changes
     the arrays, lists or dictionaries it is given, and no call, whether
     it succeeds or raises, changes the outcome of any later call: repeating a
     call yields the same result after any history of other calls.
     Returned arrays are independent of inputs and of later calls.""",
     ['histories', 'inputs'], """all sequences of calls (any routine, settings,
     filters, failing calls in between) and all input containers""",
     """Tests call routines once with literals; aliasing or cached state shows
     only when inputs are inspected afterwards or when calls follow each
     other.""",
     [M, T, U, F, I, FD], [('check_* copies', U), ('filter cache', F),
                           ('set_minimum globals', U), ('DLF points', T)],
     ['snapshots of inputs before and after', 'repeated calls'],
     [{'name': 'global minima', 'meaning': 'numerical minima', 'where': U},
      {'name': 'FILTERS', 'meaning': 'loaded filters', 'where': F}])

prop('C14', 'Concurrent modelling calls from threads do not interfere',
     """Calling modelling routines simultaneously from several threads gives in
     every thread the result the call gives alone, also when
     filters are loaded or kernels are compiled for the first time by competing
     threads.
     Each call reports only its own output.""",
     ['schedules'], """all interleavings of calls with different models,
     settings, filters and sizes from several threads""",
     """The tests are single-threaded; the compiled kernels release the global
     interpreter lock, so shared buffers or shared state would only be seen
     with real threads.""",
     [K, F, T, U, M], [('nogil kernels', K), ('lazy filter loading', F)],
     ['results of concurrent calls versus sequential calls'])

prop('C15', 'Compiled kernels stay in bounds and equal their Python source',
     """For every valid input the compiled kernels read and write only inside
     their arrays (never through wrapped-around negative indices or
     uninitialised memory), and give the same values as the same source run by
     the interpreter.
     This includes the first and last layers, single-layer models, sources and
     receivers on interfaces and large layer counts.""",
     ['inputs'], """all numbers of layers, source and receiver layers,
     component pairs, shapes, memory contents and compiler settings""",
     """Out-of-bounds reads in compiled code without bounds checks go unnoticed
     when the value is multiplied by zero or happens to be plausible; tests do
     not run with checks.""",
     [K], [('greenfct', K), ('reflections', K), ('fields', K),
           ('wavenumber', K)],
     ['bounds-checked build', 'interpreted run', 'index monitor'])

prop('C16', 'Saved data and inputs load back unchanged',
     """Data and input written to a file in any supported format read back with
     the same values (complex, real, including non-finite values, at full
     precision by default), shape and meta information, and with the requested
     precision otherwise; loaded inputs give the same result as the original
     inputs.
     Unsupported file types are refused without leaving a file behind.""",
     ['inputs', 'configurations'], """all array contents, shapes, real or
     complex, magnitudes, formats, precision and formatting settings, and file
     names""",
     """Tests round-trip one array and one input in each format with the default
     precision.""",
     [I], [('save_data/load_data', I), ('save_input/load_input', I)],
     ['values read back'])

prop('C17', 'Command line and library give the same results',
     """For every valid input file the command line writes what calling the named
     routine with these parameters and saving its result
     would write, in the requested format.
     If anything is wrong (unknown routine, missing or malformed
     input, failing computation) it says so, reports failure, and
     writes no output file.""",
     ['inputs', 'configurations', 'fault_sequences'], """all routines offered,
     parameter combinations, output formats and malformed inputs""",
     """Tests run a few invocations, mostly of help texts and one successful
     run.""",
     [MAIN, I], [('main/run', MAIN), ('load_input', I), ('save_data', I)],
     ['files written by, and exit status of, a command-line process'])

prop('C18', 'Digital filters are complete, consistent and survive storage',
     """Every filter offered can be used by name or as object with the
     same result, has base points and weights of matching length and spacing,
     and transforms known function pairs with good accuracy.
     Writing a filter to files and reading it back, in any order and with any
     name, reproduces base, factor and all coefficients, and obtaining filters
     never alters those already obtained.""",
     ['inputs', 'histories'], """all filters of both families, file names and
     directories, with one, two or several coefficient sets""",
     """Tests load a few filters and round-trip one filter.""",
     [F, U, T], [('Hankel/Fourier loading', F), ('DigitalFilter', F),
                 ('check_hankel/check_time', U)],
     ['filter objects', 'files', 'transform results'])

prop('C19', 'Filter design returns the best filter of the searched grid',
     """Designing a filter gives, for any spacing and shift values, filter
     length and known transform pair, coefficients that reproduce
     the transform pairs they were designed with, and picks from the grid the
     candidate with the best criterion; stored results load back unchanged.
     The theoretical transform pairs offered are true pairs for all parameter
     values.""",
     ['inputs'], """all transform pairs and their parameters, grids of spacing
     and shift, filter lengths, criteria and single or separate check
     functions""",
     """Tests compare a few designs with stored filters and never check the
     pairs by integration or the optimality on the grid.""",
     [FD], [('design', FD), ('_calculate_filter', FD), ('_get_min_val', FD),
            ('j0_1..cos_3', FD), ('save_filter/load_filter', FD)],
     ['designed filters', 'numerical integrals of the pairs'])

prop('C20', 'TM/TE decomposition adds up to the total field',
     """The parts returned by the TM/TE-splitting routine (direct, up- and
     down-going reflections of each mode) add up to the total field, and the
     individual parts equal the contributions of the respective
     mode and direction, for all models and depths.
     Shifting the whole model vertically changes no part.""",
     ['inputs'], """all models, depths of source and receiver in the same layer,
     offsets, frequencies, directions""",
     """Tests compare the parts for one model with stored results, with the
     interface of the layer at depth zero or deep below.""",
     [TT], [('dipole', TT), ('greenfct', TT), ('fields', TT)],
     ['returned parts', 'total field'])

prop('C21', 'Malformed input is rejected, valid input is not',
     """Inputs with inconsistent sizes, non-numeric content, unordered or
     doubled interfaces, unknown settings, unknown parameter names, or
     combinations documented as impossible raise an error before any result is
     returned, whatever the routine, and every documented form of valid
     input is accepted and equivalent to the canonical one.
     Nothing is silently ignored.""",
     ['inputs'], """all routines, parameters, single and combined malformations,
     and all documented equivalent forms (scalars, lists, arrays, names in any
     case, filter objects)""",
     """Tests try selected malformed values for each check function; routing
     through the modelling calls and combinations are not covered.""",
     [U, M, I], [('check_*', U), ('_check_shape', U), ('_check_var', U),
                 ('get_kwargs', U)],
     ['raised errors', 'results of equivalent forms'])

prop('C22', 'Verbosity and printing never influence results',
     """Results are identical for every verbosity level; at the
     lowest level nothing is written to the standard streams, at the next
     only warnings, and each level prints at least what the previous one does.
     Values printed agree with the values used.""",
     ['configurations', 'inputs'], """all routines, verbosity levels, models and
     settings""",
     """Tests compare printed text for chosen inputs of the check functions;
     equality of results across levels and silence of whole calls are not
     checked.""",
     [U, M], [('printstartfinish', U), ('_prnt_*', U), ('check_*', U),
              ('conv_warning', U)],
     ['captured output and results'])

prop('C23', 'User hooks are applied faithfully',
     """A hook that recomputes the material parameters or changes the
     frequency-domain result receives the values of the actual
     computation (model in internal order, frequencies, own parameters), and
     the result is the one of a model or response having the hook's
     values; hooks that return the default leave results unchanged.
     This holds in frequency and time domain for all routines accepting
     hooks.""",
     ['inputs', 'configurations'], """all hooks (dispersive resistivity,
     permittivity, permeability, band-pass), models, orders of depth, routines
     and domains""",
     """Tests use one Cole-Cole example and one band-pass.""",
     [M, U], [('func_eta/func_zeta', M), ('bandpass', M),
              ('check_model (res dict)', U)],
     ['hook call records', 'results'])

prop('C24', 'Laplace-domain results are the real-valued continuation',
     """For negative frequencies the result is the Laplace-domain field: real
     valued, equal to the frequency-domain solution continued to real Laplace
     parameters, for all components and every routine and Hankel transform
     that accepts them.
     Its sign convention and scaling agree with the Laplace integral
     of the time-domain response.""",
     ['inputs', 'configurations'], """all models, components, Laplace
     parameters, routines and transform methods""",
     """Tests check two values; the real-valued path compiles different
     kernels.""",
     [U, K, M, T], [('check_frequency', U), ('kernels with real input', K),
                    ('halfspace', K)],
     ['Laplace-domain results'])

prop('C25', 'Fields obey the scaling and duality laws of Maxwell\'s equations',
     """Scaling all lengths, resistivities, permittivities, permeabilities and
     frequencies consistently scales the fields by the known power, for every
     component pair; exchanging the roles of electric and magnetic material
     parameters exchanges electric and magnetic responses.
     Fields are Hermitian symmetric parts of real responses: the static limit
     is real and lossy media attenuate.""",
     ['inputs'], """all models, surveys, scale factors and components""",
     """No test scales a model; wrong constants or hidden absolute
     scales are invisible in single stored results.""",
     [K, U, M], [('check_frequency', U), ('greenfct', K), ('fullspace', K)],
     ['pairs of modelling results'])

prop('C26', 'Wavenumber-domain output transforms into the field',
     """For every component pair the two wavenumber-domain functions returned,
     integrated against the Bessel functions of order zero and
     one, give the space-domain dipole field; they equal the
     spectrum of the field at every wavenumber requested, independently of
     the other wavenumbers, frequencies and receivers in the call.""",
     ['inputs'], """all component pairs, models, positions, wavenumber arrays
     of one or two dimensions""",
     """Tests compare one electric configuration with a stored file.""",
     [M, K], [('dipole_k', M), ('angle_factor', K), ('wavenumber', K)],
     ['returned spectra'])

prop('C27', 'In-phase and quadrature are the scaled secondary-primary ratio',
     """In-phase and quadrature outputs are the real and imaginary part of the
     secondary magnetic field divided by the primary coplanar field in a
     full-space of the first layer, times the scale, for all magnetic
     component pairs, models and receivers.
     Other configurations are refused.""",
     ['inputs'], """all magnetic component pairs, models, receivers, frequencies
     and scale values""",
     """One test checks a single configuration.""",
     [M], [('ip_and_q', M)], ['returned in-phase and quadrature'])

prop('C28', 'Radar response is the wavelet-filtered impulse response',
     """The radar response is the time-domain transform of the dipole response
     multiplied by the wavelet spectrum of the given centre frequency, with the
     documented gain and without gain if none is given.
     It is linear, of the documented shape for any number of sources and
     receivers, and consistent for any accepted transform
     settings.""",
     ['inputs', 'configurations'], """all models, surveys, times, centre
     frequencies, gains and transform settings""",
     """One test compares a single response with stored data.""",
     [M], [('gpr', M), ('tem', M)], ['returned response'])

prop('C29', 'Numerical minima are honoured, reported and resettable',
     """Values below the numerical minima (times, frequencies, resistivities and
     other layer parameters, offsets, angles) are treated as the minimum, with a
     warning naming them, and never produce non-finite fields.
     Setting the minima affects all subsequent calls and only
     as set, and resetting them restores the results exactly.""",
     ['inputs', 'histories'], """all values below, at and above the minima, and
     all sequences of setting and resetting""",
     """Tests set one minimum at a time and look at a few check functions.""",
     [U], [('set_minimum/get_minimum', U), ('_check_min', U),
           ('get_off_ang', U)],
     ['results', 'warnings', 'reported minima'],
     [{'name': '_min_*', 'meaning': 'current minima', 'where': U}])

prop('C30', 'Non-convergence is always reported, convergence never denied',
     """When quadrature-based transforms do not reach the requested
     tolerance within the given limits for any of the requested values (real or
     imaginary part, any offset, any frequency, any time), the call prints a
     warning, and if no warning is given the result is accurate to the
     requested order.
     Settings beyond the limits of a method do not silently yield
     garbage.""",
     ['inputs', 'configurations'], """all tolerances, limits, intervals,
     models, offsets, and which of the values fails""",
     """Tests trigger one warning for each method, for the first or only
     value.""",
     [T, U], [('qwe', T), ('quad', T), ('hankel_qwe', T),
              ('hankel_quad', T), ('conv_warning', U)],
     ['warnings versus true error'])

prop('C31', 'Waveform responses are the convolution with the current',
     """For every piecewise-linear waveform the response is the convolution of
     the chosen elementary response with the current (or its derivative),
     linear in the amplitudes and unaffected by adding nodes on a
     linear segment, by time before the first node or after the output.
     Output before the waveform starts is zero, and irrelevant computed times do
     not influence it.""",
     ['inputs'], """all node sequences, amplitudes, signals, output times
     (before, within, at and after nodes) and quadrature orders""",
     """Tests use a few waveforms with fixed times.""",
     [U, M], [('check_waveform', U), ('tem', M)],
     ['time-domain results'])

prop('C32', 'Amplitude and phase views are consistent with the complex data',
     """For every array and every derived view, slice or arithmetic result, the
     amplitude is the modulus, and the phase, in degrees or radians, lag or
     lead, wrapped or unwrapped, is the argument with the documented
     sign; amplitude and phase together reproduce the data.
     The data themselves are never modified.""",
     ['inputs'], """all complex and real arrays, shapes, and phase options""",
     """Tests use one or two small arrays.""",
     [U], [('EMArray', U)], ['amplitude and phase'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
for p in P:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
out.write_text(''.join(json.dumps(p) + '\n' for p in P))
print(len(P), 'properties')
