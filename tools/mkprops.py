"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Beam profiles follow their closed forms at every point",
  "Hermite-Gaussian, super-Gaussian and Laguerre-Gaussian profiles evaluate, for every centre, amplitude, width and order and at every coordinate, to A*H_n(sqrt2 X)*H_m(sqrt2 Y)*exp(-(X^2+Y^2)), A*exp(-(X^2+Y^2)^P) and A*(sqrt2 R)^|l|*L_p^|l|(2R^2)*exp(-R^2)*exp(-i*l*phi), where X, Y, R are the offsets from the centre in units of the width and phi is the azimuth around the centre. "
  "Evaluation keeps the shape of the coordinate arrays (scalars, 1-D, 2-D, empty, broadcastable) and is finite everywhere, also on the axis of the beam and far outside it.",
  ["inputs", "configurations"], "all parameters and orders (n, m, |l|, p up to about 12), all coordinates from the axis to 30 beam widths, all array shapes, both floating point precisions",
  "the tests compare three low-order modes with one another on one 50x50 grid, to 6 decimals",
  ["pySLM2/profile.py"], [("closed forms evaluated as TensorFlow polynomials", "HermiteGaussian._func, LaguerreGaussian._func, SuperGaussian._func"), ("coordinate conversion and array result", "FunctionProfile.__call__")],
  observe=["profile(x, y)"])
p("C02", "Zernike profiles follow the OSA/ANSI standard",
  "A Zernike profile with valid indices (n, m), |m| <= n and n-m even, equals A*N*R_n^|m|(rho)*cos(m*phi) for m >= 0 and A*N*R_n^|m|(rho)*sin(|m|*phi) for m < 0, with rho the distance from the origin over the radius and N = sqrt(n+1) for m = 0, sqrt(2n+2) otherwise, or 1 when normalization is off. "
  "It is zero beyond the radius (the rim itself counts as inside) unless extrapolation is requested, and the profile reports the indices, radius and normalization it was made with. "
  "An index pair that is not valid is rejected with ValueError instead of giving a profile.",
  ["inputs", "configurations"], "all index pairs up to high order, positive and negative m, any radius and amplitude, points inside, on and outside the rim, both precisions",
  "the tests check ten low-order index pairs at one radius and one amplitude, and no invalid pair",
  ["pySLM2/profile.py"], [("index validation", "Zernike.__init__"), ("radial polynomial, azimuthal factor, aperture", "Zernike._func")], observe=["Zernike(...)(x, y)", "Zernike properties"])
p("C03", "Window profiles are exact 0/1 indicators of their shape",
  "A rectangular window is exactly 1 where |x-x0| < wx/2 and |y-y0| < wy/2 and exactly 0 elsewhere; a circular window is exactly 1 where the distance from its centre is at most its radius and exactly 0 elsewhere. "
  "Both hold for every centre and size and after any change of them.",
  ["inputs", "histories"], "all centres and sizes, points on both sides of and exactly on the edge, any sequence of parameter changes, both precisions",
  "no test evaluates a window at all except as a mask in one hologram test",
  ["pySLM2/window.py"], [("indicator functions", "RectangularWindowRectangle._func, RectangularWindowCircular._func")], observe=["window(x, y)"])
p("C04", "Arithmetic on profiles is pointwise arithmetic on their values",
  "For every expression built from profiles and Python numbers with +, -, *, /, ** and negation (numbers also on the left of + and *), the resulting profile evaluates at every point to the same expression of the operands' values. "
  "As soon as an operand is complex the value is complex and no imaginary part is lost, and building or evaluating an expression never changes its operands.",
  ["inputs", "programs"], "all expression trees over all kinds of profiles and int, float and complex scalars, all coordinates, both precisions",
  "the tests check single operators on two real profiles; no nesting, no mixture of real and complex, no complex scalar",
  ["pySLM2/profile.py"], [("operator overloads and type promotion", "FunctionProfile.__add__ ... __neg__, _make_attribute_func")], observe=["(expression)(x, y)"])
p("C05", "Geometric transforms compose as documented changes of coordinates",
  "shift(dx, dy) evaluates the original at (x-dx, y-dy), rotate(t) at (x cos t - y sin t, x sin t + y cos t), rescale_x(m) and rescale_y(m) at (x/m, y) and (x, y/m), and the complex form is exp(i*value); for every chain of transforms and arithmetic, applied in the order they are called. "
  "The profile a transform is applied to is left unchanged.",
  ["inputs", "programs"], "all chains of transforms over all profiles and profile expressions, all parameters, both precisions",
  "only shift is used, in one test, and as_complex_profile is tested on one profile; rotate and rescale are never called",
  ["pySLM2/profile.py"], [("coordinate substitution", "FunctionProfile.shift, rotate, rescale_x, rescale_y, as_complex_profile")], observe=["profile.shift(...)(x, y) and the like"])
p("C06", "Changing a parameter takes effect in every later evaluation",
  "After a settable parameter of a profile or window (centre, width, amplitude, power, constant, window size) is assigned, it reads back as assigned and every later evaluation of that profile, and of every profile derived from it by arithmetic or transforms before or after the assignment, uses the new value, no matter what was evaluated before. "
  "Other profiles, including others of the same kind, are unaffected.",
  ["histories", "inputs"], "all interleavings of construction, derivation, evaluation with any array shape, and assignment, over several live profiles",
  "no test assigns a parameter after construction; compiled evaluations are cached, so a stale value only shows after an evaluate-assign-evaluate history",
  ["pySLM2/profile.py", "pySLM2/window.py"], [("parameters held in variables read at evaluation", "property setters of HermiteGaussian, SuperGaussian, ConstantProfile, Zernike and the windows"), ("derived profiles refer to the original", "_make_attribute_func, shift, rotate")],
  state=[("parameter variables", "current parameter values", "pySLM2/profile.py, pySLM2/window.py")], observe=["profile.parameter", "profile(x, y)"])
p("C07", "SLM and image plane coordinate grids follow one convention",
  "For every device, pixel (i, j) sits at x = (j - Nx/2)*pixel, y = (Ny/2 - i)*pixel, and the image plane grid holds the spatial frequencies of that pixel lattice times wavelength*focal_length with zero at index (Ny//2, Nx//2), x increasing with j and y decreasing with i. "
  "A simulation padded by (px, py) extends the SLM grid by that many pixels on each side without moving any existing pixel, refines the image grid accordingly, and reports Nx+2px, Ny+2py and the pixel areas of both planes that match its grids. "
  "The named models have their data sheet size and pitch, and every device reports the wavelength, focal length, scaling factor and pixel size it was made with.",
  ["configurations"], "all wavelengths, focal lengths, odd and even pixel numbers, pixel sizes, asymmetric paddings, all device models, both precisions",
  "the tests check one device with one symmetric padding, and mostly the two grids against each other",
  ["pySLM2/slm.py", "pySLM2/simulation.py"], [("index to coordinate conversion", "SLM._convert_pixel_index_to_dmd_coordinate"), ("image plane grids", "SLM._image_plane_grid, SLMSimulation._image_plane_padded_grid, _fourier_plane_padded_grid"), ("pixel areas", "SLMSimulation.fourier_plane_pixel_area, image_plane_pixel_area")],
  observe=["fourier_plane_grid", "image_plane_grid", "fourier_plane_padded_grid", "image_plane_padded_grid"])
p("C08", "Any accepted profile becomes the right sampled field",
  "Given a profile, an array, a tensor or a number, the sampled field has the shape of the device (Ny rows, Nx columns) and the configured real or complex type, and equals the profile at the coordinates of the requested plane, the given array or tensor, or the number in every pixel. "
  "Complex values keep their imaginary part when a complex field is requested; one row, one column or one number given as an array is either refused or repeated over the device.",
  ["inputs", "configurations"], "all profile kinds and expressions, arrays of every numeric dtype and memory layout, tensors, int/float/complex numbers, both planes, both precisions",
  "the conversion is only exercised through Hermite-Gaussian profiles on real models; arrays, tensors, numbers and the real/complex choice are untested",
  ["pySLM2/slm.py"], [("sampling and casting", "SLM.profile_to_tensor")], observe=["profile_to_tensor"])
p("C09", "Gray-scale and thresholded Lee holograms are pixel exact",
  "With method 'ideal' the DMD state at each pixel is a*(1+cos(2*pi*(x*cos(theta)+y*sin(theta))/p - (phase_out-phase_in)))/2, the phases changing sign for the negative order; when computed from an input and a target beam, phase_in is the phase of the input, a*exp(i*phase_out) is the Fourier transform of the target (times the window, if any) divided by the input amplitude and normalised so that a is at most 1 and reaches 1. "
  "Every value is finite and in [0, 1], also where the input beam is completely dark, and method 'simple' gives exactly the pixels where the ideal value exceeds 1/2, as booleans.",
  ["inputs", "configurations"], "all device geometries (odd and even), grating periods and angles, orders, real and complex inputs and targets, windows, beams that are exactly zero on part of the device, both precisions",
  "the tests never look at hologram pixels; one geometry, one angle, positive order, no window, no complex input",
  ["pySLM2/slm.py", "pySLM2/_lib.py"], [("amplitude and phase of the required modulation", "DMD._calc_amp_phase"), ("Lee grating", "_lib._grating_phase, _calculate_dmd_grating_ideal, _calculate_dmd_grating_simple"), ("entry points", "DMD.calculate_dmd_state, DMD.set_dmd_grating_state")],
  state=[("dmd_state", "the hologram", "pySLM2/slm.py")], observe=["dmd.dmd_state"])
p("C10", "The first diffraction order is the target beam times the efficiency",
  "For an ideal hologram, the simulated field of the selected diffraction order is the target beam moved to that order (at the first order origin, or opposite to it for the negative order) times eta/4, eta being the efficiency that the calculation returned; the window, when given, filters the target in the Fourier plane. "
  "eta is proportional to the input amplitude, inversely proportional to the target amplitude, the same for every method, and the first order origin lies at wavelength*focal_length/period from the axis in the direction of the grating angle.",
  ["inputs", "configurations"], "all geometries, gratings, orders, windows, real and aberrated inputs, real, complex and off-centre targets, both precisions",
  "one test checks one target at one geometry to 5 percent of the peak; the test of eta is skipped as numerically unstable",
  ["pySLM2/slm.py", "pySLM2/_lib.py", "pySLM2/simulation.py"], [("efficiency", "DMD.calculate_dmd_state"), ("order position", "DMD.first_order_origin"), ("propagation", "SLMSimulation.propagate_to_image")], observe=["calculate_dmd_state return value", "first_order_origin", "simulated image plane field"])
p("C11", "Random binarization is binary, unbiased and independent per pixel",
  "With method 'random' the DMD state is boolean and each pixel is switched on independently, in every call anew, with probability (tanh(r*(P+W)) - tanh(r*(P-W)))/2, where P in [0, pi] is the distance of the grating phase from its maximum and W = asin(amplitude). "
  "Averaged over calls, the selected order is therefore the target beam times eta/pi for a sharp threshold; pixels of zero amplitude are never on.",
  ["inputs", "histories", "configurations"], "all geometries, amplitude and phase maps, steepness values, orders, repeated calls, both precisions",
  "no test runs the random method at all, although it is the default",
  ["pySLM2/_lib.py", "pySLM2/slm.py"], [("probability map and random threshold", "_lib._calculate_dmd_grating_random"), ("method selection and defaults", "_lib.calculate_dmd_grating")], observe=["dmd.dmd_state over repeated calls"])
p("C12", "IFTA holograms are binary, deterministic and correct in the signal window",
  "With method 'ifta' the DMD state is the boolean result of N rounds that start from the ideal hologram times s and in round k force values below k/(2N) to 0 and above 1-k/(2N) to 1, replace the image field inside the signal window by the ideal one, and divide by the input beam (0 where it is dark), finally thresholded at 1/2. "
  "It is the same on every call, mirrors that receive no light stay off, and inside the signal window the simulated field approximates target*s*eta/4 better than simple thresholding does.",
  ["inputs", "configurations"], "all geometries, orders, input beams (real, complex, partly dark), targets, signal windows, N from 0 up, s, both precisions",
  "one test checks the in-window error for one geometry and N = 100 to 5 percent of the peak",
  ["pySLM2/_lib.py", "pySLM2/slm.py"], [("iteration", "_lib._calculate_dmd_grating_ifta, _ifta_binarize_hologram, _ifta_correct_profile"), ("argument conversion", "DMD.calculate_dmd_state")], observe=["dmd.dmd_state", "simulated image plane field"])
p("C13", "Gerchberg-Saxton holograms reproduce the target where it was asked for",
  "A 'gs' phase hologram is real, finite, has the shape of the device and is the phase found after N rounds of alternating projection between the input beam's amplitude at the SLM and the target amplitude in the image plane, starting from a random phase; N defaults to 200. "
  "Simulating it with the same input beam (including beams with aberrations or sign changes) gives the target amplitude at the target's position and orientation, and more rounds from the same start never increase the mismatch.",
  ["inputs", "configurations"], "all geometries (odd, even, non-square), real and complex inputs, asymmetric and off-centre targets, any N, both precisions",
  "no test computes a phase hologram",
  ["pySLM2/_lib.py", "pySLM2/slm.py"], [("iteration", "_lib._calculate_lcos_slm_hologram_gs"), ("simulated modulation", "LCOS_SLM._state_tensor"), ("entry point and defaults", "LCOS_SLM.calculate_hologram, _lib.calculate_lcos_slm_hologram")],
  state=[("slm_state", "phase hologram in radians", "pySLM2/slm.py")], observe=["slm.slm_state", "simulated image plane field"])
p("C14", "MRAF holograms shape the signal window and free the rest",
  "An 'mraf' phase hologram is the phase found after N rounds in which the image field becomes m*target amplitude with the current phase inside the signal window and (1-m) times itself outside it, m being the mixing factor (default 0.4, N 200), so that the target amplitude matters only inside the window. "
  "It is real, finite and of the shape of the device, and simulating it with the same input beam puts the target's shape into the signal window, at the target's position and orientation.",
  ["inputs", "configurations"], "all geometries, real and complex inputs, off-centre targets and windows, mixing factors in (0, 1], any N, both precisions",
  "no test computes a phase hologram",
  ["pySLM2/_lib.py", "pySLM2/slm.py"], [("iteration", "_lib._calculate_lcos_slm_hologram_mraf"), ("simulated modulation", "LCOS_SLM._state_tensor"), ("argument conversion and defaults", "LCOS_SLM.calculate_hologram, _lib.calculate_lcos_slm_hologram")], observe=["slm.slm_state", "simulated image plane field"])
p("C15", "Simulated propagation is the unitary Fourier transform of the modulated beam",
  "The field behind the SLM is the input beam times the device state (the mirror state for a DMD, exp(i*phase) for a phase SLM), zero in the padding, and the image plane field at every point (x', y') of the image grid is pixel_area/(wavelength*focal_length) times the sum over all pixels of field*exp(2*pi*i*(x*x'+y*y')/(wavelength*focal_length)), pixels counted from the centre of the lattice. "
  "Hence input, output and image plane power agree for a lossless device, padding changes no power, propagation is linear in the input, and intensities and powers are those of the reported fields.",
  ["inputs", "configurations"], "all geometries (odd, even, asymmetric padding), binary, gray and phase states, real and complex input beams, both precisions",
  "the tests check total power for an all-on DMD and one Gaussian focus to 1 percent of the peak",
  ["pySLM2/simulation.py", "pySLM2/slm.py", "pySLM2/_lib.py"], [("propagation and normalisation", "SLMSimulation.propagate_to_image"), ("Fourier transforms", "_lib._inverse_fourier_transform"), ("device modulation", "DMD._state_tensor, LCOS_SLM._state_tensor"), ("powers", "get_input_power, get_output_power, get_image_plane_power")], observe=["input_field, output_field, image_plane_field, intensities, powers"])
p("C16", "Simulation results are a snapshot of the last propagation",
  "After a propagation, the reported input, output and image plane fields, intensities and powers all belong to that propagation, with the device state and input at that moment, until the next propagation, clear or order blocking; later changes of the device or of other simulations do not alter them. "
  "Before the first propagation and after clear there are no results and blocking the zeroth order is refused. "
  "Blocking the zeroth order zeroes the image plane field within the given radius (by default half the distance to the first order) of the optical axis, changes nothing else, and is idempotent.",
  ["histories", "configurations"], "all sequences of propagate, clear, block, device updates and reads over several simulations and devices",
  "the tests propagate once or twice and read results immediately",
  ["pySLM2/simulation.py"], [("result fields", "SLMSimulation.propagate_to_image, clear"), ("blocking", "DMDSimulation.block_zeroth_order")], state=[("result fields", "input, output and image plane field of the last propagation", "SLMSimulation.__init__")], observe=["input_field, output_field, image_plane_field, intensities, powers"])
p("C17", "DMD state edits touch exactly the mirrors they should",
  "Switching all mirrors on or off gives a boolean array of Ny rows and Nx columns; a full grating replaces the whole state; a circular patch replaces exactly the mirrors whose distance from the centre (row i, column j) is less than half the diameter with the grating computed for the whole device, and keeps all others. "
  "So any sequence of such edits ends in the state obtained by applying them one by one, and values stay within [0, 1], grey levels of an ideal grating included.",
  ["histories", "inputs"], "all sequences of on/off/grating/patch edits, fractional centres, patches partly or wholly off the device, all methods, orders and phase maps",
  "the tests set all-on and all-off states only; gratings and patches are never created",
  ["pySLM2/slm.py", "pySLM2/_lib.py"], [("state edits", "DMD.set_dmd_state_on, set_dmd_state_off, set_dmd_grating_state, circular_patch, _circular_mask")], state=[("dmd_state", "mirror states", "pySLM2/slm.py")], observe=["dmd.dmd_state"])
p("C18", "Packing a DMD state loses and reorders nothing",
  "The packed bytes of a boolean state hold one bit per mirror, row after row, first mirror in the most significant bit, padded with zero bits to whole bytes, so that unpacking restores the state for every state and device size. "
  "A state that is not boolean is refused with TypeError, and packing does not change the state.",
  ["inputs", "configurations"], "all boolean states from every way of producing them (also transposed or strided arrays), all device sizes including those not divisible by 8, all non-boolean dtypes",
  "the tests pack all-on and all-off states, which are invariant under any reordering",
  ["pySLM2/slm.py"], [("packing", "DMD.pack_dmd_state")], observe=["pack_dmd_state"])
p("C19", "Precision and FFT backend are honoured throughout",
  "The precision can be chosen before the first use of the library and is refused with an error, without effect, afterwards or for any type other than 32 or 64 bit floats; from then on every profile value, grid, sampled field, hologram and simulated field has that precision, and in 64 bit mode is accurate to double precision. "
  "Switching between the two FFT backends, at any time, changes no result beyond rounding.",
  ["configurations", "histories"], "both precisions, both FFT backends, all switching histories, all computations",
  "the only test of the backend is skipped; the suite compares to 6 decimals at most, which single precision satisfies, and never switches the FFT backend",
  ["pySLM2/_backend.py", "pySLM2/_lib.py", "pySLM2/profile.py", "pySLM2/slm.py", "pySLM2/simulation.py"], [("configuration latch", "_BackEnd.dtype setter"), ("dtype propagation", "BACKEND.dtype, dtype_complex, dtype_int"), ("backend dispatch", "_lib._fourier_transform, _inverse_fourier_transform")], observe=["BACKEND", "dtypes and values of all results"])
p("C20", "Zernike analysis recovers and removes exactly the aberrations present",
  "For every phase map composed of Zernike terms within an aperture that lies inside the map, decomposition returns each coefficient up to the discretisation of the aperture, in ANSI order, and the requested reconstruction is the sum of coefficient times term; removing the trivial terms subtracts piston and both tilts (and defocus only if asked) and leaves every other term. "
  "Both are linear in the map, never modify it, and the ANSI single index maps one-to-one onto the valid pairs (n, m) with j = (n(n+2)+m)/2.",
  ["inputs"], "all coefficient vectors, map shapes (odd, even, non-square), radii, numbers of terms, indices up to large values, both precisions",
  "the tests use one map size and radius, 15 random coefficients, and no reconstruction, linearity or index check",
  ["pySLM2/analysis.py"], [("projection", "zernike_decomposition, remove_trivial_phase"), ("index conversion", "ansi_j_to_n_m")], observe=["return values"])
p("C21", "Callers' data and the library's data never alias",
  "No operation modifies an array, tensor, list or keyword dictionary it is given, and nothing computed earlier changes when the caller later overwrites those inputs. "
  "Arrays the library returns (profile values, grids, fields, intensities) are private copies: overwriting them changes neither later results nor the arrays returned before.",
  ["histories", "inputs"], "all public operations, arrays of every dtype and layout, any later in-place modification by the caller",
  "no test modifies an array after passing it in or getting it back, so shared or cached buffers go unnoticed",
  ["pySLM2/slm.py", "pySLM2/simulation.py", "pySLM2/profile.py", "pySLM2/analysis.py", "pySLM2/util/controller.py"], [("copies at the boundary", "fourier_plane_grid, image_plane_grid, _pack_tensor_to_array, FunctionProfile.__call__"), ("copy on the way in", "SLM.profile_to_tensor, _state_tensor")], observe=["arguments and results of all public operations"])
p("C22", "Results do not depend on what else was computed before",
  "Every deterministic computation on a device, profile or simulation gives the same result whether it runs first in a fresh process or after and between any other computations on any other objects, of the same or a different geometry, with the same or different parameters. "
  "In particular devices and simulations of the same size but different pixel size, wavelength, grating, order or padding never share results.",
  ["histories", "configurations"], "all interleavings of computations over many live devices, simulations and profiles in one process",
  "each test builds one device and uses it alone; compiled functions and grids are cached per process, so leakage only shows in mixed histories",
  ["pySLM2/slm.py", "pySLM2/simulation.py", "pySLM2/_lib.py", "pySLM2/profile.py"], [("per-instance caches", "lru_cache on SLM._fourier_plane_grid, _image_plane_grid, SLMSimulation._image_plane_padded_grid"), ("compiled functions keyed by instance and shape", "tf.function methods")], observe=["results of all public computations"])
p("C23", "Invalid or failing operations are reported and leave no trace",
  "Unknown methods, wrong device types, non-integer padding, invalid precision, missing required arguments and fields of the wrong shape raise an exception instead of giving a result. "
  "An operation that raises, also because of a fault inside a transform, leaves the device state and the simulation results as they were, and the same object works correctly afterwards.",
  ["fault_sequences", "inputs"], "all operations, all kinds of invalid arguments, a failure at each Fourier transform of each computation",
  "no test provokes an error",
  ["pySLM2/slm.py", "pySLM2/simulation.py", "pySLM2/_lib.py", "pySLM2/profile.py"], [("validation", "SLMSimulation.__init__, DMDSimulation.__init__, _lib.calculate_dmd_grating, calculate_lcos_slm_hologram"), ("assignment only after success", "DMD.calculate_dmd_state, LCOS_SLM.calculate_hologram, SLMSimulation.propagate_to_image")], observe=["exceptions", "dmd_state, slm_state and simulation results after them"])
p("C24", "Threads working on their own objects do not disturb each other",
  "When several threads each use their own profiles, devices and simulations at the same time, every thread gets the results it would get alone, and threads that only evaluate a shared profile or read a shared device's grids all get the same correct values.",
  ["schedules"], "all interleavings of concurrent computations on distinct objects and of concurrent reads of shared ones",
  "all tests are single-threaded",
  ["pySLM2/slm.py", "pySLM2/simulation.py", "pySLM2/_lib.py", "pySLM2/profile.py"], [("no shared mutable computation state", "tf.function, lru_cache, BACKEND")], observe=["results per thread"])
p("C25", "A DMD controller talks to the hardware only while it is ready",
  "Before initialization has completed successfully, and for the ALP after it was closed, loading images, asking for the display size and triggering raise an exception and reach no hardware; a controller whose initialization failed at any step does not count as initialized and can be initialized again. "
  "After a hardware call fails during a load, the error is reported, and the next load that succeeds displays exactly its images. "
  "Creating a controller whose driver library is missing raises ModuleNotFoundError.",
  ["fault_sequences", "histories"], "a failure at each hardware call of each operation, all sequences of initialize, load, trigger and close, inverted or not",
  "the controller tests need hardware and a person and are skipped",
  ["pySLM2/util/controller.py"], [("initialization gate", "_check_initialization, DMDControllerBase.initialize"), ("initialized only after the device is", "ALPController.initialize, LuxbeamController.initialize"), ("fresh setup on each load", "load_single, load_multiple")], state=[("initialized flag", "hardware ready", "DMDControllerBase")], observe=["calls on the driver library", "exceptions"])
p("C26", "The ALP displays exactly the images loaded, in order",
  "After load_single the ALP shows that image continuously without waiting for a trigger, bit for bit with mirror (row, column) where it was given, and after load_multiple it steps through exactly the given images in order, one per rising trigger edge, uninterrupted between frames and at the minimum picture time; inverted if and only if inversion was requested. "
  "This holds after any earlier loads, and the number of image sequences kept in the device does not grow with the number of loads.",
  ["histories", "inputs"], "all sequences of load_single and load_multiple with any images and any number of them, inverted or not, any display size",
  "the controller tests need hardware and a person and are skipped",
  ["pySLM2/util/controller.py"], [("transfer and trigger setup", "ALPController.load_single, load_multiple, initialize"), ("release of earlier sequences", "ALPController.close and the load functions")], observe=["state of the (emulated) ALP device"])
p("C27", "The Luxbeam displays exactly the images loaded, in order",
  "After load_single the Luxbeam shows that image and keeps showing it, and after load_multiple of N images it shows the first and moves to the next on each rising edge of the trigger, returning to the first after the last; one software trigger is exactly one step. "
  "This holds for every N, after any earlier loads, and the inversion and address given at construction reach the device.",
  ["histories", "inputs"], "all sequences of load_single, load_multiple and triggers, any images and number of images, inverted or not",
  "the controller tests need hardware and a person and are skipped",
  ["pySLM2/util/controller.py"], [("sequencer program", "LuxbeamController.initialize"), ("transfer and restart", "LuxbeamController.load_single, load_multiple"), ("software trigger", "fire_software_trigger")], observe=["image displayed by the (emulated) Luxbeam after each trigger"])
p("C28", "Number images show their number at the size of the display",
  "The image of a number is a boolean array of Ny rows and Nx columns showing dark background and the number's digits, upright, left to right, starting at the left edge with a glyph height set by half the display height; the same number always gives the same image, different numbers that fit give different images, and a controller's number image has the size of its display.",
  ["inputs", "configurations"], "all numbers that fit the display, all display sizes",
  "no test creates a number image without hardware",
  ["pySLM2/util/sample.py", "pySLM2/util/controller.py"], [("rendering", "number_image"), ("display size", "DMDControllerBase.number_image")], observe=["returned array"])
p("C29", "Long sessions need no more memory than short ones",
  "Repeating any operation on the same objects (hologram calculations, gratings, patches, propagations, evaluations and parameter changes of profiles, derived profiles, grids, packing, analysis), with whatever numbers and with other fields of the same size each time, does not accumulate memory: results, intermediate fields and compiled functions of earlier repetitions are not kept. "
  "Profiles, devices and simulations that are no longer used are released, except for a bounded number kept for reuse.",
  ["histories", "inputs"], "all operations repeated without end with any numbers and fields, any number of objects made and dropped",
  "each test runs its operation once or a few times in a process that ends soon after",
  ["pySLM2/slm.py", "pySLM2/_lib.py", "pySLM2/simulation.py", "pySLM2/profile.py", "pySLM2/analysis.py"],
  [("numbers become tensors before they enter compiled functions", "calculate_dmd_grating, calculate_lcos_slm_hologram, DMD.circular_patch"), ("caches of bounded size", "lru_cache on the grids of SLM and SLMSimulation"), ("results replaced, not collected", "SLMSimulation.propagate_to_image")],
  observe=["objects tracked by the interpreter", "resident memory", "weak references"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in P: jsonschema.validate(q, s)
print(len(P), max(len(q["title"]) for q in P))
