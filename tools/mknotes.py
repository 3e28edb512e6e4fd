import json, pathlib
N = {
'C01': ('independent Maxwell solver as online oracle on dipole() executions', 'Every execution over random VTI stacks, depths, offsets and all 36 combinations is compared with an independent transmission-line solution of Maxwell\'s equations under the same filter, plus converged quadrature.'),
'C02': ('metamorphic monitor: exchanged source and receiver', 'Executions in pairs, source and receiver exchanged; dipoles, finite rotated bipoles, frequency and time.'),
'C03': ('metamorphic monitor: translated, rotated, mirrored surveys', 'Executions in pairs under shifts, rotations and reflections, compared as tensors.'),
'C04': ('metamorphic monitor: fictitious layers; continuity across interfaces', 'Executions on equivalent models, and with receivers at either side of interfaces.'),
'C05': ('metamorphic monitor: equivalent model notations', 'Executions of the same physical model in all depth notations and both coordinate systems.'),
'C06': ('Maxwell-residual and independent-reference monitor of the direct field', 'Finite-difference Maxwell residuals and reference values of the analytical field; both domains and the excluded direct field compared in layered models.'),
'C07': ('cross-implementation monitor: closed form against layered modelling', 'Every execution of the analytical solutions is compared with layered modelling or quadrature and its parts are summed.'),
'C08': ('oracle over transform executions: closed forms, cross-method agreement', 'All methods, filters and settings run on closed-form kernels and on random models.'),
'C09': ('oracle over transform executions: closed forms, cross-method agreement', 'All methods, filters and settings run on closed-form functions and on random models.'),
'C10': ('metamorphic monitor: batch against single calls', 'Batches compared entry by entry with single-entry calls, for all routines and loop settings.'),
'C11': ('online oracle: direction-cosine sums and quadrature', 'bipole() executions compared with weighted sums of dipole() executions.'),
'C12': ('trace oracle: relations between time responses', 'Step, impulse and static responses related by quadrature and sums.'),
'C13': ('state monitor: argument fingerprints, history interleaving', 'Fingerprints of all arguments and shared state around every call; results compared across random call histories.'),
'C14': ('concurrency monitor under thread stress', 'Concurrent calls in many threads under a small switch interval compared bitwise with serial results; shared state monitored.'),
'C15': ('sanitizer: bounds-checked and interpreted kernels', 'Compiled kernels run with bounds checking and compared with the interpreted ones with monitored indices.'),
'C16': ('round-trip oracle over written files', 'Random data and inputs written, read and compared; defects injected into files.'),
'C17': ('process-level oracle on the command line', 'Command-line executions compared with library calls; failures injected.'),
'C18': ('closed-form and round-trip oracle over all filters', 'Every filter offered is checked on known pairs, saved and loaded; catalogue fingerprints.'),
'C19': ('closed-form and brute-force oracle', 'Design executions compared with brute-force evaluation of the grid; transform pairs compared with quadrature.'),
'C20': ('conservation oracle: parts add up', 'Parts of the split compared with the total and an independent TM/TE reference.'),
'C21': ('fault injection at the interface with an acceptance oracle', 'Valid inputs are mutated into invalid ones and into equivalent ones; outcome monitored.'),
'C22': ('output-stream monitor', 'Standard streams captured at every verbosity level; results compared bitwise.'),
'C23': ('recording hooks as monitors', 'Hooks record what they receive and apply known changes; result compared with equivalent models.'),
'C24': ('independent reference in the Laplace domain', 'Laplace-domain executions compared with an independent solver, and the Laplace integral of time responses.'),
'C25': ('metamorphic monitor: scaling and duality', 'Pairs of executions under scaling and duality transformations.'),
'C26': ('independent reference and numerical integration', 'Wavenumber outputs compared with an independent spectrum and integrated to fields.'),
'C27': ('definition oracle', 'Outputs recomputed from the separate field calculations by definition.'),
'C28': ('definition oracle', 'Outputs recomputed from the frequency-domain fields and the wavelet by definition.'),
'C29': ('boundary-value monitor with state tracking', 'Values around the minima, warnings and global state monitored over random histories.'),
'C30': ('warning/accuracy oracle', 'Requested tolerances, warnings printed and actual errors related for random settings.'),
'C31': ('convolution oracle', 'Outputs compared with analytical convolution for random waveforms.'),
'C32': ('definition oracle over arrays', 'Views compared with amplitude and phase by definition.'),
}
pathlib.Path(__file__).with_name('notes.json').write_text(json.dumps(N, indent=1)+'\n')
