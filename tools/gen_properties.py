#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
SLM, LIB, PRO, SIM, ANA, WIN, CTL, BAK = ["pySLM2/%s" % f for f in
    ("slm.py", "_lib.py", "profile.py", "simulation.py", "analysis.py", "window.py", "util/controller.py", "_backend.py")]

prop("C01", "Fourier-plane grid gives the physical position of every mirror",
 "For every device geometry, the Fourier-plane coordinate arrays have shape (Ny, Nx), and pixel (row i, column j) lies at x = (j - Nx/2)*pixel_size and y = (Ny/2 - i)*pixel_size: x grows to the right, y grows upwards, the spacing is exactly one pixel, and converting coordinates back to pixel indices inverts this. The preset device models (DLP7000 1024x768 at 13.68 um, DLP9500 1920x1080 at 10.8 um, DLP9000 2560x1600 at 7.56 um, PLUTO-2 1920x1080 at 8 um) report their data-sheet resolution and pixel pitch for any wavelength and focal length.",
 ["inputs", "configurations"], "every pixel size, every (Nx, Ny) including odd and non-square, both precisions",
 "The suite only compares padded with unpadded grids of one DLP9500, so a common offset, flip or scale error would pass, and square, odd or other sized panels are never built.",
 [SLM], [("pixel index to coordinate conversion", "slm.py SLM._convert_pixel_index_to_dmd_coordinate / _fourier_plane_grid"), ("preset models", "slm.py DLP9500, DLP7000, DLP9000, PLUTO_2")], ["SLM.fourier_plane_grid", "Nx, Ny, pixel_size, scaling_factor"])
prop("C02", "Image-plane grid is the conjugate grid of the Fourier plane",
 "For every device, column n and row m of the image-plane coordinate arrays (shape (Ny, Nx)) are x' = (n - Nx//2)*wavelength*focal_length/(Nx*pixel_size) and y' decreasing with m in steps of wavelength*focal_length/(Ny*pixel_size), with the optical axis (0, 0) at row Ny//2, column Nx//2 for even sizes. The scaling factor is wavelength*focal_length.",
 ["inputs", "configurations"], "every wavelength, focal length, pixel size, and (Nx, Ny); the axis position clause for even sizes",
 "Tests check one DLP9500 and only that padding refines the grid; scale, orientation and other devices are not covered.",
 [SLM], [("conjugate frequency grid", "slm.py SLM._image_plane_grid")], ["SLM.image_plane_grid", "SLM.scaling_factor"])
prop("C03", "Padding extends the Fourier grid and refines the image grid consistently",
 "With any non-negative paddings, a simulation's padded Fourier-plane grid has shape (Ny+2*padding_y, Nx+2*padding_x), its centre crop equals the device's own grid and it continues with the same spacing; its image-plane grid is the conjugate grid of that padded size. The reported pixel areas equal the product of the grid spacings in each plane.",
 ["inputs", "configurations"], "every padding pair, device size, pixel size, wavelength and focal length",
 "One device with padding equal to half its size is tested; asymmetric, odd or zero/non-zero mixed paddings and swapped axes are not.",
 [SIM], [("padded grids and areas", "simulation.py SLMSimulation._fourier_plane_padded_grid, _image_plane_padded_grid, image_plane_pixel_area")], ["SLMSimulation.fourier_plane_padded_grid", "SLMSimulation.image_plane_padded_grid", "*_pixel_area"])
prop("C04", "Profiles are sampled on the device grid of the requested plane",
 "Converting a profile to a tensor for a device evaluates a function profile at exactly the coordinates the device reports for the requested plane (Fourier by default, image otherwise), and passes array or tensor values through unchanged. Numbers and constant profiles become a full (Ny, Nx) tensor of that value, and the result has the real or complex dtype of the configured precision as requested.",
 ["inputs", "configurations"], "every profile function, every array content, both planes, both dtype requests, both precisions",
 "Tests use a handful of Gaussian profiles through the complete pipeline and never compare the sampled tensor with the grid.",
 [SLM], [("profile sampling", "slm.py SLM.profile_to_tensor")], ["SLM.profile_to_tensor"])
prop("C05", "Hermite-Gaussian profiles follow the documented mode formula",
 "A Hermite-Gaussian profile with centre (x0, y0), amplitude A, width w and orders (n, m) evaluates at every point to A*H_n(sqrt2 (x-x0)/w)*H_m(sqrt2 (y-y0)/w)*exp(-((x-x0)^2+(y-y0)^2)/w^2) with the physicists' Hermite polynomials; n belongs to x and m to y.",
 ["inputs"], "all points, centres, amplitudes, positive widths, orders up to the stated bound",
 "Only specific orders enter tests, and only as operands whose value cancels or against another profile class with w fixed.",
 [PRO], [("mode evaluation", "profile.py HermiteGaussian._func")], ["HermiteGaussian.__call__"])
prop("C06", "Laguerre-Gaussian profiles follow the mode formula with phase exp(-i l phi)",
 "A Laguerre-Gaussian profile with centre, amplitude a, width w, azimuthal index l and radial index p evaluates at every point to a*(sqrt2 r/w)^|l| * exp(-r^2/w^2) * L_p^|l|(2 r^2/w^2) * exp(-i l phi), r and phi being polar coordinates about the centre. Changing the sign of l conjugates the field.",
 ["inputs"], "all points other than the vortex centre for l != 0, all centres, amplitudes, positive widths, l of both signs and p up to the stated bound",
 "Tests cover l = 0 and l = 1 with p = 0 at one centre and width.",
 [PRO], [("mode evaluation", "profile.py LaguerreGaussian._func")], ["LaguerreGaussian.__call__"])
prop("C07", "Super-Gaussian profiles follow the documented formula",
 "A super-Gaussian profile evaluates to A*exp(-(((x-x0)^2+(y-y0)^2)/w^2)^P) for every point and parameter set; at power 1 it equals the fundamental Gaussian with the same parameters.",
 ["inputs"], "all points, centres, amplitudes, widths and positive powers",
 "Tests evaluate power 1 at one parameter set.",
 [PRO], [("evaluation", "profile.py SuperGaussian._func")], ["SuperGaussian.__call__"])
prop("C08", "Zernike profiles are the ANSI/OSA Zernike functions",
 "A Zernike profile (n, m) with coefficient a and aperture radius R evaluates inside the aperture to a*N*R_n^|m|(r/R)*cos(m phi) for m >= 0 or *sin(|m| phi) for m < 0, with N = sqrt(n+1) for m = 0 and sqrt(2n+2) otherwise, or N = 1 when normalization is off. Outside the aperture it is zero, unless extrapolation is requested, in which case the same formula applies everywhere. Index pairs with |m| > n or n - |m| odd are rejected with ValueError. The profile reports the indices, coefficient and radius it was built with.",
 ["inputs"], "all points, coefficients, positive radii, all index pairs up to the stated order, both flags",
 "Tests compare ten low orders at radius 10 and coefficient 1, always normalized, and do not check the outside region or index validation.",
 [PRO], [("radial polynomial and normalization", "profile.py Zernike.__init__"), ("evaluation and aperture", "profile.py Zernike._func")], ["Zernike.__call__", "Zernike constructor"])
prop("C09", "Window profiles are exact indicator functions",
 "A rectangular window is 1 exactly where |x-x0| < wx/2 and |y-y0| < wy/2 and 0 everywhere else; a circular window is 1 exactly where the point is within distance r of its centre, boundary included, and 0 elsewhere. No other value ever occurs, in actual floating-point arithmetic.",
 ["inputs"], "all points, centres and non-negative sizes; every float32 input for the value range",
 "No test looks at a window profile on its own; boundary points and off-centre windows are never sampled.",
 [WIN], [("indicator evaluation", "window.py RectangularWindowRectangle._func, RectangularWindowCircular._func")], ["window profile __call__"])
prop("C10", "Profile arithmetic is pointwise",
 "For any two profiles p and q, real or complex, and any real or complex number c, p+q, p-q, p*q, p/q, -p, p+c, c+p, p-c, p*c, c*p, p/c and p**k (k a number) evaluate at every point to the same operation applied to the operand values, mixed real/complex operands being promoted to complex. Operands are never changed by building or evaluating a derived profile.",
 ["inputs"], "every pair of profile functions (uninterpreted), every point, scalar, nesting up to the stated depth",
 "Tests use two profiles of the same class with the same dtype; mixed dtype, complex scalars, reflected operators, nested expressions are not covered.",
 [PRO], [("operator construction", "profile.py FunctionProfile._make_attribute_func and operator methods")], ["FunctionProfile operators"])
prop("C11", "Geometric transforms and phase-to-field conversion follow their documentation",
 "For any profile p: p.shift(dx, dy)(x, y) = p(x-dx, y-dy); p.rotate(t)(x, y) = p(x cos t - y sin t, x sin t + y cos t); p.rescale_x(m)(x, y) = p(x/m, y); p.rescale_y(m)(x, y) = p(x, y/m); p.as_complex_profile()(x, y) = exp(i p(x, y)). These hold for compositions in any order, so shifting forth and back or rotating by t and -t restores the profile.",
 ["inputs"], "every profile function (uninterpreted), point, shift, angle, non-zero scale; compositions of two transforms",
 "Only as_complex_profile is tested, on one profile; the geometric transforms have no test except one shift inside an end-to-end run.",
 [PRO], [("transforms", "profile.py FunctionProfile.rotate, shift, rescale_x, rescale_y, as_complex_profile")], ["FunctionProfile transforms"])
prop("C12", "Profile parameters are live: a setter acts on every later evaluation",
 "After any sequence of parameter assignments and evaluations, a profile (Hermite-Gaussian, super-Gaussian, Zernike coefficient, constant, rectangular and circular window) reports the last assigned values and evaluates exactly like a freshly built profile with those values, and so do profiles derived from it by arithmetic and transforms; other profile objects are not affected.",
 ["inputs", "histories"], "all parameter values; histories of set / evaluate steps up to the stated length, on the profile and on derived profiles",
 "No test assigns a parameter after construction.",
 [PRO, WIN], [("parameters held in variables read at evaluation", "profile.py and window.py property setters")], ["profile setters and getters", "FunctionProfile.__call__"],
 [("parameter variables", "current parameter values", "tf.Variable members of each profile class")])
prop("C13", "The grayscale hologram is the Lee grating of the requested amplitude and phases",
 "With the ideal method the state of pixel (x, y) is amp*(1 + cos(G - (phase_out - phase_in)))/2 with G = 2 pi (x cos(theta) + y sin(theta))/(periodicity*pixel_size); using the negative order flips the sign of both phases. For amplitudes in [0, 1] every value lies in [0, amp], also in actual floating-point arithmetic.",
 ["inputs", "configurations"], "all amplitude and phase maps, periodicities, angles, pixel sizes, both orders",
 "One end-to-end run at one angle and period with a 5% error allowance on a large panel; negative order is never run.",
 [LIB, SLM], [("grating phase", "_lib.py _grating_phase"), ("ideal grating", "_lib.py _calculate_dmd_grating_ideal"), ("entry point", "slm.py DMD.set_dmd_grating_state")], ["DMD.dmd_state after set_dmd_grating_state"])
prop("C14", "Binary holograms follow the threshold rule of their method",
 "The simple method switches on exactly the pixels whose grayscale grating value exceeds 0.5. The random method switches a pixel on exactly when (tanh(r(f+w)) - tanh(r(f-w)))/2 exceeds a uniform draw from [0, 1), where f in [0, pi] is the folded grating phase of the Lee grating and w = asin(amp); hence zero-amplitude pixels are never on and, for the same draws, raising the amplitude never switches a pixel off. Both produce boolean states for both diffraction orders.",
 ["inputs"], "all amplitude and phase maps, steepness r > 0, periods, angles, every sequence of random draws",
 "The simple and random methods are not run by any test (a random result cannot be compared with a stored one).",
 [LIB, SLM], [("simple", "_lib.py _calculate_dmd_grating_simple"), ("random", "_lib.py _calculate_dmd_grating_random"), ("dispatch and default r", "_lib.py calculate_dmd_grating")], ["DMD.dmd_state"])
prop("C15", "First diffraction order carries the target, corrected for the input beam",
 "After calculating a DMD hologram with the ideal method for any input field and target field, the modulated field at every lit pixel is the sum of an undiffracted part, the Fourier transform of the target times exp(-i G) times eta/4, and a conjugate-order part, whatever the amplitude and phase of the input beam; with the negative order the target part rides on exp(+i G) instead. Here G is the grating phase, whose image-plane displacement is the reported first-order origin (mirrored for the negative order), and eta is the returned efficiency, which therefore scales as 1/k when the target is multiplied by k > 0 and as k when the input is; a window multiplies the target spectrum.",
 ["inputs", "configurations"], "every complex input field without zeros, every complex target field, every angle and period, both orders, with and without window, on small panels",
 "One target, one input and one angle are tested to 5 percent; the eta tests are skipped as numerically unstable.",
 [SLM, LIB], [("amplitude and phase encoding", "slm.py DMD._calc_amp_phase"), ("hologram entry point", "slm.py DMD.calculate_dmd_state"), ("first order position", "slm.py DMD.first_order_origin")], ["DMD.calculate_dmd_state return value", "SLMSimulation.output_field", "DMD.first_order_origin"])
prop("C16", "Encoded amplitudes are normalized and unlit pixels stay dark",
 "For any input beam, including beams that are exactly zero on part of the panel, and any target not vanishing on the lit part, the hologram amplitude envelope used by calculate_dmd_state lies in [0, 1] and reaches 1 at some lit pixel; a pixel that receives no light is off (with any method), and without IFTA so is a pixel that needs no light. The computed states and the returned efficiency are never NaN and the efficiency is finite and positive.",
 ["inputs"], "all input fields including zeros and all targets on small panels",
 "All tests illuminate the whole panel with a wide Gaussian.",
 [SLM], [("normalization", "slm.py DMD._calc_amp_phase")], ["DMD.dmd_state", "DMD.calculate_dmd_state return value"])
prop("C17", "The iterative (IFTA) hologram follows its algorithm",
 "The IFTA method returns a boolean state in which pixels without input light are off and which equals the documented iteration: start from s times the grayscale grating; N times, push pixel values above 1-t to 1 and below t to 0 with t = (i+1)/(2N), propagate to the image plane, replace the field inside the signal window by that of the starting grating, propagate back and divide by the input; finally threshold at 0.5. Consequently a window covering the whole image plane gives the simple hologram of the scaled grating for every N, and a grating that is already binary is returned unchanged.",
 ["inputs", "configurations"], "all gratings, input beams, windows and scalings on small panels, iteration counts up to the stated bound",
 "One configuration with N = 100 is compared with the target with a 5% allowance; window placement and thresholds are not checked.",
 [LIB, SLM], [("iteration", "_lib.py _calculate_dmd_grating_ifta, _ifta_binarize_hologram, _ifta_correct_profile"), ("window sampling", "slm.py DMD.calculate_dmd_state")], ["DMD.dmd_state"])
prop("C18", "A circular patch changes only the mirrors inside the circle",
 "Writing a circular grating patch centred at pixel (i, j) with diameter d leaves every mirror with (row-i)^2 + (column-j)^2 >= (d/2)^2 exactly as it was and gives every mirror inside exactly the value a full-panel grating with the same parameters has there, for grayscale and binary methods, any prior state and any sequence of patches.",
 ["inputs", "histories"], "all centres, diameters, amplitudes, phases, prior states; sequences of patches up to the stated length",
 "circular_patch is not called by any test.",
 [SLM], [("mask", "slm.py DMD._circular_mask"), ("merge", "slm.py DMD.circular_patch")], ["DMD.dmd_state"])
prop("C19", "Packing a DMD state loses nothing",
 "Packing a boolean DMD state yields ceil(Nx*Ny/8) bytes that hold the pixels in row-major order, first pixel in the most significant bit, spare bits zero, so unpacking recovers every state; a state that is not boolean is refused with TypeError. Setting the panel on or off gives an all-ones or all-zeros boolean state of shape (Ny, Nx) whatever was there before.",
 ["inputs"], "every state of panels up to the stated size, sizes not divisible by 8 included",
 "Only the all-on and all-off states of full-size devices are packed, which any bit or pixel permutation would also satisfy.",
 [SLM], [("packing", "slm.py DMD.pack_dmd_state"), ("reset", "slm.py DMD.set_dmd_state_on/off")], ["DMD.pack_dmd_state"])
prop("C20", "Phase-retrieval holograms follow the GS and MRAF iterations",
 "A GS hologram is a real phase map in [-pi, pi]; each iteration propagates the input field with the current phase, replaces the image amplitude by the target amplitude keeping the image phase, and takes the phase of the back-propagated field relative to the input field. MRAF does the same with m*target inside the signal window and (1-m)*image field outside, so with m = 1 and a window covering everything it equals GS. A phase map that already produces the target amplitude is unchanged by an iteration, for complex input beams too, and scaling the target of GS by k > 0 changes nothing.",
 ["inputs"], "all complex input fields, targets, windows, mixing factors and starting phases on small panels, iteration counts up to the stated bound",
 "No test calculates an LCOS hologram.",
 [LIB, SLM], [("GS", "_lib.py _calculate_lcos_slm_hologram_gs"), ("MRAF", "_lib.py _calculate_lcos_slm_hologram_mraf"), ("entry point", "slm.py LCOS_SLM.calculate_hologram")], ["LCOS_SLM.slm_state"])
prop("C21", "An LCOS panel applies exactly the phase its hologram was computed for",
 "Simulating an LCOS panel multiplies the input field by exp(+i*state) pixel by pixel, the same modulation the hologram algorithms assume, so a phase map that solves the design problem reproduces the target amplitude in the simulated image at the target position and not at its mirror image. The modulation has unit modulus for every real phase state, a new or reset panel leaves the field unchanged, and power is conserved.",
 ["inputs"], "all phase maps and complex input fields on small panels, all paddings",
 "No test simulates an LCOS panel.",
 [SLM, SIM], [("state to modulation", "slm.py LCOS_SLM._state_tensor"), ("reset", "slm.py LCOS_SLM.reset_slm_state"), ("propagation", "simulation.py SLMSimulation.propagate_to_image")], ["SLMSimulation.output_field", "SLMSimulation.image_plane_field", "get_output_power"])
prop("C22", "Simulated image field is the Fourier integral on the reported grids",
 "Propagating any input through any panel state gives output field = input*state on the panel and zero in the padding, input field = input on the panel and zero in the padding, and, for even padded sizes, at each reported image-plane coordinate the field sum over pixels of output*exp(+2 pi i (x x' + y y')/(wavelength*focal_length))*pixel_area/(wavelength*focal_length), x, y, x', y' being the reported grid coordinates (for odd padded sizes the same sum holds with coordinates counted from the central pixel). Intensities are the squared moduli of the fields.",
 ["inputs", "configurations"], "all complex inputs and states, all paddings up to the stated bound, on small even-sized panels",
 "Tests check a centred, mirror-symmetric Gaussian, for which flips, transposed axes, conjugation and half of the shift errors are invisible.",
 [SIM, LIB], [("propagation", "simulation.py SLMSimulation.propagate_to_image"), ("transform", "_lib.py _inverse_fourier_transform")], ["input_field", "output_field", "image_plane_field", "*_intensity"])
prop("C23", "Simulated power is conserved between the planes",
 "For every input, state, padding and panel size (odd sizes included) the image-plane power equals the output power; with all mirrors on, output power equals input power; a DMD state with values in [0, 1] never increases power; powers do not depend on the padding and equal the sum of intensity times the reported pixel area of the plane.",
 ["inputs", "configurations"], "all complex inputs, all binary and grayscale states, paddings and panel sizes up to the stated bound",
 "Two paddings with an all-on panel and one Gaussian are tested; never with a pattern on the panel.",
 [SIM], [("normalization", "simulation.py SLMSimulation.propagate_to_image, image_plane_pixel_area"), ("powers", "simulation.py get_input_power, get_output_power, get_image_plane_power")], ["get_*_power"])
prop("C24", "Blocking the zeroth order removes exactly the central disc",
 "Blocking the zeroth order sets the image field to zero exactly at the image-plane points closer than r to the optical axis and leaves every other value unchanged, with r defaulting to half the distance to the first order, scaling_factor/(2*periodicity*pixel_size); input and output fields stay as they were. Blocking before a propagation raises TypeError.",
 ["inputs", "histories"], "all fields, radii, periods, paddings; repeated blocking with any two radii",
 "The call occurs once, at the default radius, in an end-to-end test that only looks inside a window around the first order.",
 [SIM], [("mask", "simulation.py DMDSimulation.block_zeroth_order")], ["DMDSimulation.image_plane_field"])
prop("C25", "A simulation result is a snapshot of its last propagation",
 "All fields and intensities are None until a propagation has run and again after clear; a propagation makes them functions of its own input and of the panel state at that moment only, whatever was propagated, blocked or cleared before, and a later change of the panel state does not alter them until the next propagation. A simulation refuses panels that are not SLMs (or not DMDs for the DMD simulation) and non-integer paddings with TypeError.",
 ["inputs", "histories"], "all call sequences of propagate, state change, block, clear up to the stated length, all field contents",
 "Tests propagate each simulation object once.",
 [SIM], [("result members", "simulation.py SLMSimulation._input_field, _output_field, _image_plane_field")], ["SLMSimulation fields", "constructors"],
 [("simulation fields", "cached result of the last propagation", "simulation.py SLMSimulation members")])
prop("C26", "Both FFT back ends compute the same propagation",
 "Selecting the NumPy or the TensorFlow FFT back end, at any time, does not change simulated fields or calculated holograms: both are the same unnormalized forward transform and its exact inverse over both axes, and a forward transform undoes an inverse one for every field and size.",
 ["inputs", "configurations", "histories"], "every complex field of the stated sizes, both back ends, switching between calls",
 "The suite runs only with the default back end of the machine (NumPy without a GPU).",
 [LIB, BAK], [("transform selection", "_lib.py _fourier_transform, _inverse_fourier_transform"), ("switch", "_backend.py fft_backend")], ["SLMSimulation.image_plane_field", "DMD.calculate_dmd_state"],
 [("fft back end selector", "which FFT implementation is used", "_backend.py BACKEND._fft_backend")])
prop("C27", "Precision can be chosen only before first use and is then used everywhere",
 "The working precision accepts only 32- or 64-bit float and raises ValueError for anything else; the complex and integer types always match it. Once the precision has been read by any computation, changing it raises an error and leaves it as it was, for every order of configuration and use; every array computed afterwards has the chosen precision.",
 ["histories", "configurations"], "all sequences of set / read operations up to the stated length, with any requested type",
 "The only backend test is skipped because it has to run alone.",
 [BAK], [("precision lock", "_backend.py _BackEnd.dtype, dtype_complex, dtype_int")], ["BACKEND.dtype", "dtypes of results"],
 [("initialized flag", "whether the precision has been used", "_backend.py _BackEnd._initialized")])
prop("C28", "ANSI index conversion is the standard one-to-one numbering",
 "For every single index j >= 0 the returned pair (n, m) satisfies n >= 0, |m| <= n, n - m even and j = (n(n+2)+m)/2, so distinct indices give distinct modes and every mode is reached.",
 ["inputs"], "every index up to the stated bound (2^20), in double-precision arithmetic",
 "The first 15 indices are used by one test, and only for a round trip that any fixed renumbering of valid modes would pass.",
 [ANA], [("index conversion", "analysis.py ansi_j_to_n_m")], ["ansi_j_to_n_m"])
prop("C29", "Zernike decomposition is the aperture-averaged projection onto ANSI modes",
 "For any phase map, the k-th returned coefficient is the mean over the pixels strictly inside the centred aperture of the map times the normalized k-th ANSI Zernike function at the pixel coordinates (x to the right, y up, origin at the array centre); exactly num_terms coefficients are returned in ANSI order, and values outside the aperture have no influence. The optional reconstruction is the sum of coefficient times mode, zero outside the aperture unless extrapolation is requested.",
 ["inputs", "configurations"], "every phase map (symbolic pixel values) on the stated array sizes, radii and numbers of terms",
 "One random combination of modes is decomposed and recovered; linearity, outside values, orientation, odd sizes and the reconstruction are untested.",
 [ANA], [("projection", "analysis.py zernike_decomposition")], ["zernike_decomposition"])
prop("C30", "Removing trivial phase subtracts piston, tilt and optional defocus only",
 "The result differs from the input map by a combination of the piston, the two tilt modes and, if requested, the defocus mode inside the aperture and by nothing outside it, with each coefficient the aperture mean of the map remaining after the previous terms times that mode. Adding a constant to the map inside the aperture never changes the result there, and the caller's array is not modified.",
 ["inputs", "configurations"], "every phase map (symbolic pixel values) on the stated array sizes and radii, with and without defocus removal",
 "Four pure-mode maps on one array size are tested.",
 [ANA], [("removal", "analysis.py remove_trivial_phase")], ["remove_trivial_phase"])
prop("C31", "ALP controller sends exactly the requested images in a valid order",
 "For every sequence of calls, no display command reaches an ALP device before initialization (the call raises instead), and loading one or several boolean images halts the device, allocates memory for exactly that number of 1-bit images, uploads all pixels row by row and image by image as 255 for on and 0 for off, and only then starts the run. Loading several images puts the device in externally triggered (rising edge) mode and loading a single image displays it without waiting for a trigger, whatever was loaded before. Several images are shown for the minimum picture time each, without dark time in between; inversion is enabled exactly when requested; closing halts the device and releases the sequence and the device.",
 ["inputs", "histories"], "all image contents (symbolic pixels), image counts and call sequences up to the stated bound, both inversion settings",
 "The controller tests need hardware and a person; none of them runs.",
 [CTL], [("initialization guard", "util/controller.py _check_initialization"), ("upload", "util/controller.py ALPController.load_single, load_multiple")], ["commands received by the ALP library"],
 [("device mode", "projection mode left in the device", "ALP device")])
prop("C32", "Luxbeam controller sends exactly the requested images in a valid order",
 "For every sequence of calls, no image reaches a Luxbeam device before initialization (the call raises instead); loading images stops the sequencer, sets the image counter to the number of images while in reset, uploads the given images unchanged to slots 0, 1, ... in order, and only then restarts the sequencer. The program installed at initialization shows the slots 0 up to the counter in order, one per rising trigger edge (software, electrical or optical), starting over after the last. A software trigger is one rise followed by one fall, and the inversion setting is handed to the device exactly as requested.",
 ["inputs", "histories"], "all image contents (symbolic pixels), image counts and call sequences up to the stated bound, both inversion settings",
 "The controller tests need hardware and a person; none of them runs.",
 [CTL], [("initialization guard", "util/controller.py _check_initialization"), ("upload", "util/controller.py LuxbeamController.load_single, load_multiple, fire_software_trigger")], ["commands received by the Luxbeam library"])
prop("C33", "Number images show the number",
 "The generated number image is a boolean array of shape (Ny, Nx) that shows the decimal digits of the given number.",
 ["inputs"], "every number and image size",
 "Nothing renders a number without hardware.",
 ["pySLM2/util/sample.py"], [("rendering", "util/sample.py number_image")], ["number_image"])
prop("C34", "Iterative holograms converge to high-fidelity images",
 "With the default iteration counts the IFTA, GS and MRAF holograms reach a low relative error inside the signal window for physically sensible targets, better than the non-iterative methods.",
 ["inputs", "configurations"], "all sensible targets and beams on full-size panels",
 "One target is tested.",
 [LIB], [("iterations", "_lib.py")], ["simulated image field"])
prop("C35", "Rounding in either precision stays negligible at device scale",
 "On full-size panels, single-precision results differ from exact arithmetic by far less than the physical effects they describe.",
 ["inputs", "configurations"], "all inputs on full-size panels, both precisions, CPU and GPU kernels",
 "Tests compare a few numbers with loose tolerances.",
 [LIB, SLM, SIM], [("floating-point kernels", "TensorFlow and NumPy kernels used throughout")], ["all numeric results"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
