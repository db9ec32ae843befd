import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=None)))
S='py/qsonic/'
p("C01","Catalogue reading selects, keeps and orders exactly the right quasars",
"Reading a quasar catalogue returns exactly the rows with zmin <= Z <= zmax that belong to the requested surveys (every survey when none is requested), with the values of every recognised column unchanged and the RA/DEC/last-night aliases renamed, sorted by HPXPIXEL then SURVEY then TARGETID (TILEID, PETAL_LOC, TARGETID in tile mode). A missing HPXPIXEL column is computed from RA and DEC as a nested healpixel with nside 16 for mocks and 64 for data. A file that lacks a required column, has duplicate TARGETIDs (duplicate TARGETID-TILEID pairs in tile mode) or has no row left after the cuts is rejected with an error.",
["inputs","configurations"],"every catalogue table (row contents and order, column naming variants, extension name) and every mock/tile/survey/redshift selection",
"Two existing tests use one nine-row table each; ordering, alias and selection rules quantify over all tables and option combinations.",
[S+"catalog.py"],[("read_quasar_catalog",S+"catalog.py"),("_prime_catalog, _validate_adjust_column_names, _add_healpix",S+"catalog.py")],obs=["read_quasar_catalog return value"])
p("C02","Every quasar is assigned to exactly one rank, groups unsplit, loads balanced",
"For every catalogue and every number of MPI ranks, each selected quasar is handed to exactly one rank, all quasars of one healpixel (one tile in tile mode) go to the same rank as a single group in catalogue order, and the loads of any two ranks differ by at most the size of the largest group. An unusable catalogue raises the package's exception on every rank with no rank left waiting. The documented MPI-free call (no communicator) gives the same result as a single rank.",
["inputs","configurations","schedules"],"every catalogue, selection, and rank count 1..n",
"test_balance_load covers one hand-made list; the MPI test is skipped. Partition and balance must hold for every size list and rank count.",
[S+"catalog.py",S+"mpi_utils.py"],[("mpi_get_local_queue",S+"catalog.py"),("balance_load",S+"mpi_utils.py")],obs=["mpi_get_local_queue return value on each rank"])
p("C03","Master-side work is broadcast, and its failure reaches every rank",
"A computation run through the broadcast wrapper is evaluated once, on the master rank only, and its result, whatever its value, is returned on every rank; if it raises, every rank raises the package's exception with the given message and no rank is left waiting, for any kind of callable. Masks, calibrations and fiducial tables built from files behave the same on all ranks, and a missing or malformed file raises the package's exception on every rank. Parsed command-line options are identical on all ranks, and rejected options make every rank exit.",
["inputs","fault_sequences","configurations"],"every callable kind, result value, failure, rank count, and missing/corrupt input file",
"test_mpi_fnc_bcast runs one function without ranks; collective completion on all ranks under failure needs several ranks and injected faults.",
[S+"mpi_utils.py",S+"masks.py",S+"calibration.py",S+"picca_continuum.py"],[("mpi_fnc_bcast, mpi_parse",S+"mpi_utils.py"),("SkyMask, DLAMask",S+"masks.py"),("NoiseCalibrator, FluxCalibrator",S+"calibration.py")],obs=["return value or exception on each simulated rank"])
p("C04","Bad pixels never enter a spectrum; input arrays are left untouched",
"A spectrum built from pixel arrays has zero flux and zero inverse variance in exactly the pixels where the mask is non-zero, the flux or inverse variance is NaN, or the inverse variance is negative, and carries its own row's flux, inverse variance and resolution unchanged everywhere else. The caller's arrays are never modified, and later operations on one spectrum never alter another spectrum or the input. The signal-to-noise redward of Ly-alpha equals the mean of flux*sqrt(ivar) over the unmasked pixels at or above (1+z)*1215.67 A in all arms.",
["inputs","histories"],"every array content, mask pattern, dtype, arm set, resolution shape (shared or per quasar), and operation history",
"Tests use constant arrays with an all-zero mask; aliasing and NaN handling appear only for particular inputs and call histories.",
[S+"spectrum.py"],[("Spectrum.__init__, _set_rsnr",S+"spectrum.py"),("generate_spectra_list_from_data",S+"spectrum.py")],obs=["Spectrum.flux, ivar, reso, rsnr"])
p("C05","Each quasar is read from its own rows of the right file",
"Whatever the order of targets in the spectra files and however many other targets they hold, reading a healpixel (coadded data, single exposures or mocks) or a tile gives every catalogue quasar found there the wavelength, flux, inverse variance, mask, resolution matrix and (for mocks) true continuum stored for its own TARGETID in the file of its own survey, petal or healpixel. Exposure reading yields one spectrum per exposure row with that row's NIGHT, EXPID, TILEID, FIBER and PETAL_LOC. Quasars absent from the file are skipped with a RuntimeWarning and the others are unaffected.",
["inputs","configurations"],"every file content and row order, catalogue subset, layout (coadd, exposure, tile, mock), arm subset, resolution option",
"test_io reads one file per layout with few rows in one order; pairing must hold for every permutation, subset and survey mix.",
[S+"io.py",S+"spectrum.py"],[("get_spectra_reader_function and the four readers",S+"io.py"),("_read_onehealpix_file, _read_true_continuum",S+"io.py"),("read_resolution_matrices_onehealpix_data",S+"io.py")],obs=["Spectrum objects returned by the reader"])
p("C06","Forest selection, SNR and length cuts follow their definitions",
"After the forest region is set, each arm holds exactly the pixels with max(w1,(1+z)*lya1) <= wavelength < min(w2,(1+z)*lya2), with their own flux, inverse variance and resolution, and arms without any valid pixel there are absent; the outcome depends only on the last region set. The per-arm mean SNR is the mean of flux*sqrt(ivar) over valid pixels, the effective SNR is sum(SNR^3)/sum(SNR^2) over arms, and the length is the number of valid pixels. A spectrum is long enough when that number exceeds skip*(1+z)*dlambda_rf/dlambda, and short-arm removal drops exactly the arms with fewer than int(skip*(1+z)*(lya2-lya1)/dlambda)+1 valid pixels from every forest quantity; slicing an arm cuts every forest quantity of it once and alike.",
["inputs","histories"],"every redshift, wavelength window, arm layout, mask pattern and sequence of forest operations",
"Tests use one redshift and one window; boundaries, gaps and repeated calls need generated inputs.",
[S+"spectrum.py"],[("set_forest_region, drop_short_arms, slice, is_long, get_effective_meansnr",S+"spectrum.py")],obs=["forest* properties, mean_snr"])
p("C07","Sky and BAL masks zero exactly the pixels inside the listed ranges",
"Applying a sky mask sets flux and inverse variance to zero for exactly the forest pixels with wave_min <= wavelength < wave_max of any listed range, observed-frame ranges using the observed wavelength and rest-frame ranges the wavelength divided by 1+z. Applying the BAL mask does so for exactly the pixels between line*(1+z)*(1-vmax/c) and line*(1+z)*(1-vmin/c) for every listed line and every catalogue velocity pair in which both ends are positive. All other pixels, wavelengths, resolution and other spectra stay untouched, masking is idempotent and independent of the order of ranges, and a catalogue without the BAL columns is rejected.",
["inputs","histories"],"every mask table, redshift, velocity pair set, arm layout, and order or repetition of application",
"Tests check one line list on one spectrum; exact interval semantics quantify over all ranges and grids.",
[S+"masks.py"],[("SkyMask",S+"masks.py"),("BALMask",S+"masks.py")],obs=["forestflux, forestivar before and after apply"])
p("C08","DLA masking removes saturated pixels and corrects damping wings",
"For every spectrum whose TARGETID is in the DLA catalogue, pixels blueward of the quasar's Ly-alpha line whose combined transmission exp(-tau) (Ly-alpha plus Ly-beta Voigt profiles with b=10 km/s, multiplied over all its DLAs) is below the mask limit get zero flux and inverse variance, and all other such pixels have flux divided by the transmission and inverse variance multiplied by its square. Pixels at or redward of the quasar's Ly-alpha line and spectra of other TARGETIDs are untouched, and no pixel becomes non-finite. Transmission always lies between 0 and 1, decreases with column density, agrees with an exact Voigt profile, and the redshift is taken from Z_DLA when that column is present, else from Z.",
["inputs","configurations"],"every DLA list (redshift, column density, multiplicity), catalogue order, wavelength grid incl. exact line centres, mask limit",
"One test checks one DLA; line centres, several DLAs per sightline and column choice need generated catalogues.",
[S+"masks.py"],[("DLAMask",S+"masks.py")],obs=["forestflux, forestivar after apply; get_dla_flux"])
p("C09","Noise and flux calibration scale flux and ivar by the tabulated functions",
"Noise calibration divides the forest inverse variance by the spline-interpolated eta of the file (zeros in the table count as one) and changes nothing else; in additive mode the inverse variance becomes i/(eta + i*var_lss*C^2), never negative, and is refused when a spectrum has no continuum. Flux calibration divides the flux by the linearly interpolated stacked flux (zeros count as one) and multiplies the inverse variance by its square, so that flux*sqrt(ivar) is preserved. A calibration file whose wavelengths are not equally spaced is rejected.",
["inputs","configurations"],"every calibration table, wavelength grid, arm layout, spectrum content and option",
"Tests apply constant tables; interpolation and zero handling depend on the table and the wavelengths.",
[S+"calibration.py"],[("NoiseCalibrator",S+"calibration.py"),("FluxCalibrator",S+"calibration.py")],obs=["forestivar, forestflux after apply"])
p("C10","Arm coaddition is the weighted mean on the union wavelength grid",
"Coadding arms puts every input pixel in the output pixel of its own wavelength on one uniform grid spanning all arms; there the flux is the weighted mean of the arms' fluxes, the inverse variance is (sum w)^2/sum(w^2/ivar) (the sum of inverse variances for pure inverse-variance weights), and the continuum is the arms' continuum. Pixels not covered by a valid input pixel have zero flux and inverse variance, the result does not depend on arm order, and no output value (resolution included) is uninitialised or non-finite. The resolution matrix is the weighted mean of the zero-padded arm matrices, reverting to equal weights where all weights vanish, and the mean SNR is recomputed from the coadded pixels.",
["inputs","histories"],"every arm layout (overlapping, touching, gapped, one to three arms), mask pattern, weights, continuum, resolution size",
"Tests coadd two constant arms on one grid.",
[S+"spectrum.py"],[("simple_coadd, coadd_arms_forest",S+"spectrum.py")],obs=["wave/flux/ivar/reso and forest* after coadding"])
p("C11","Coadding delta files keeps every quasar and averages with correct weights",
"Coadding deltas of one TARGETID gives, in each pixel of the union wavelength grid, the weight-averaged delta and continuum, inverse variance (sum w)^2/sum(w^2/ivar), and a weight consistent with the averaged large-scale-structure variance; pixels masked in one input contribute nothing there. The coadding script writes every TARGETID of all input directories exactly once, in the file of its healpixel (requested nside and ordering), with its identifying header values kept, independently of the number of processes; two inputs give the same in either order, and more inputs equal their sequential pairwise coaddition in some order. Blinded deltas stay blinded, and a rerun replaces the earlier files.",
["inputs","configurations"],"every set of delta files, overlaps, gaps, masks, weights, number of processes, healpix options",
"No test covers the coadding script or Delta.coadd.",
[S+"spectrum.py",S+"scripts/qsonic_coadd_deltas.py"],[("Delta.coadd, Delta._coadd_reso",S+"spectrum.py"),("read_dirs_to_dict, write_one_hpx, main",S+"scripts/qsonic_coadd_deltas.py")],obs=["delta-*.fits of the output directory"])
p("C12","Delta files round-trip: what was fitted is what is read back",
"Every valid spectrum is saved exactly once, one extension per arm with signal, in the file of its healpixel or rank, and invalid ones never are. Reading the file back gives the same wavelengths, delta = flux/continuum - 1 (zero where the inverse variance is zero), inverse variance and weight multiplied by the continuum squared, continuum, resolution matrix when present, and header values (TARGETID, RA and DEC in radians, Z, MEANSNR, RSNR, wavelength step, smoothing scale, weighted mean resolution in km/s, exposure identifiers). A file without any valid spectrum reads back empty. Saving without blinding set, or with neither healpix nor rank given, is refused, and delta tables lacking a wavelength, delta or identifier column are rejected on reading.",
["inputs","configurations"],"every list of spectra (valid or not, arms, masks, continua, resolution, exposures) and save option",
"test_io saves one configuration and checks that files exist.",
[S+"io.py",S+"spectrum.py"],[("save_deltas, read_deltas",S+"io.py"),("Spectrum.write, Delta.__init__, Delta.write, mean_resolution",S+"spectrum.py")],obs=["FITS files written; Delta objects read"])
p("C13","Blinding is never skipped for data that must be blinded",
"Real data in the Ly-alpha forest whose latest LASTNIGHT over all selected quasars of all ranks is 20210514 or later is always written as blinded: the delta column is DELTA_BLIND and the BLINDING header names the strategy (desi_m2 before 20210801, desi_y1 before 20220801, desi_y3 afterwards). Mock analyses, forests starting redward of Ly-alpha, and earlier nights are written unblinded as DELTA with BLINDING none. The decision is identical on all ranks and in all files of a run, however quasars are distributed.",
["inputs","configurations"],"every LASTNIGHT distribution, forest window, mock flag, rank count and resolution option",
"No test runs the decision across dates and ranks.",
[S+"spectrum.py",S+"scripts/qsonic_fit.py"],[("Spectrum.set_blinding",S+"spectrum.py"),("mpi_run_all",S+"scripts/qsonic_fit.py")],state=[("blinding strategy","set once per run for all spectra",S+"spectrum.py")],obs=["column names and BLINDING header of written deltas"])
p("C14","Smoothed inverse variance and weights respect masks and their formulas",
"Smoothing the inverse variance keeps masked pixels at exactly zero and valid pixels positive and finite, restores high-noise outliers exactly, leaves constant noise unchanged, scales with the input, and otherwise equals Gaussian smoothing of the errors with the requested spread and edge padding; the pipeline inverse variance itself is never changed, and a non-positive scale undoes smoothing. With a valid continuum the weight is i/(eta + i*var_lss*C^2) of the smoothed inverse variance i, hence zero exactly where masked; otherwise it is the smoothed inverse variance. The continuum chi2 is the weighted sum of squared residuals, or -1 without a valid continuum. The running-median outlier mask contains every bad pixel, no pixel closer to the running median of the valid ones than esigma times the larger of its error and 1.4826 MAD, and, for errors of at least one, all that are farther.",
["inputs","histories"],"every ivar array, mask pattern, outliers, scale, var_lss and eta functions, and sequence of smoothing/weighting calls",
"Tests smooth constant arrays only.",
[S+"mathtools.py",S+"spectrum.py"],[("get_smooth_ivar, fft_gaussian_smooth, get_median_outlier_mask",S+"mathtools.py"),("set_smooth_forestivar, set_forest_weight, calc_continuum_chi2",S+"spectrum.py")],obs=["forestivar_sm, forestweight, cont_params['chi2']"])
p("C15","Interpolators agree with exact linear and cubic-spline interpolation",
"For every equally spaced table, the linear interpolator returns the piecewise-linear function and the cubic interpolator the cubic spline with the chosen boundary condition (not-a-knot or natural), inside the table and, extrapolating the end pieces, outside. Table values are reproduced at the nodes, replacing the table behaves like constructing anew, and the polynomial evaluator returns the power series. The input table is not modified, and with copying requested later changes of it have no effect.",
["inputs","histories"],"every table length from 2 up, spacing, values, evaluation points inside and outside, and reset sequence",
"Tests compare one cubic polynomial at 300 points.",
[S+"mathtools.py"],[("FastLinear1DInterp, FastCubic1DInterp, mypoly1d",S+"mathtools.py")],obs=["interpolator return values"])
p("C16","Subsample statistics equal the delete-one jackknife",
"For every sequence of added measurements and number of subsamples, the mean is the weighted mean of all measurements, and the covariance (full, blocked, or its diagonal) is the delete-one jackknife over the cyclically filled subsamples, optionally bias corrected, independent of which of the mean, variance or covariance is asked first or how often. Summing over ranks gives the statistics of all measurements together. Adding after a result was taken is refused until a reset, after which the object behaves as new.",
["inputs","histories","configurations"],"every measurement sequence, shape, subsample count and start, block size, rank count and order of method calls",
"Tests check one Gaussian sample statistically.",
[S+"mathtools.py"],[("SubsampleCov",S+"mathtools.py"),("block_covariance_of_square",S+"mathtools.py")],obs=["get_mean, get_mean_n_var, get_mean_n_cov"])
p("C17","Variance fitting bins every pixel once and recovers var_lss and eta",
"Each added pixel inside the wavelength and variance limits is counted in exactly one (wavelength, variance) bin, whose pixel count, quasar count, mean and variance of delta, mean pipeline variance and jackknife error (the mean's error propagated, never below the Gaussian estimate) equal those of its members; masked pixels and pixels outside the limits never enter a bin. Results do not depend on the order of spectra beyond jackknife grouping, nor on how spectra are spread over ranks for counts, means and variances. Fitting returns var_lss and eta solving var = eta*var_pipe + var_lss weighted by the errors within bounds, in each wavelength bin with at least five variance bins holding the required numbers of pixels and quasars (half of them on a second attempt), and raises the package's exception when more than 40% of bins fail.",
["inputs","histories","configurations"],"every set of spectra, binning, thresholds, covariance option, rank count",
"Tests fit one simulated sample.",
[S+"picca_continuum.py"],[("VarLSSFitter",S+"picca_continuum.py")],obs=["VarLSSFitter properties, fit results, VAR_STATS table"])
p("C18","The fitted continuum minimises the stated cost for every quasar",
"For a valid fit the continuum is mean continuum times a polynomial of the requested order in log rest wavelength times the mean flux, positive everywhere, and its parameters are at a minimum (the global one for well-measured quasars) of sum w*(f-C)^2 - sum ln w with w = i/(eta + i*var_lss*C^2) over all arms; noiseless data generated by the model with negligible var_lss are recovered. Scaling flux by s and inverse variance by 1/s^2 scales the continuum by s. A fit that is not positive everywhere or fails is marked invalid with no continuum and chi2 -1; spectra do not influence each other's fits, masked pixels have no influence, and both minimisers agree.",
["inputs","configurations"],"every spectrum (redshift, arms, noise, masks), polynomial order, minimiser, mean continuum, var_lss and eta",
"Tests fit flat spectra.",
[S+"continuum_models/picca_continuum_model.py",S+"picca_continuum.py"],[("PiccaContinuumModel",S+"continuum_models/picca_continuum_model.py"),("fit_continua",S+"picca_continuum.py")],obs=["cont_params of each spectrum"])
p("C19","Stacking and the mean-continuum update use each valid pixel once",
"The stacked flux in each observed and rest-frame bin is the weighted mean over exactly the pixels of valid spectra falling in that bin, the same for any number of ranks and order of spectra, zero where there is none, and no pixel of an accepted forest is lost or makes stacking fail. The updated mean continuum is the smoothed rest-frame stack (times the previous mean continuum when residuals are stacked), normalised to unit mean and orthogonal to the fitted Legendre orders in log wavelength, and is identical on all ranks. Normalising by the stacked flux multiplies every valid continuum by the interpolated stack (bins without data count as one), and eta calibration divides every inverse variance by eta.",
["inputs","configurations"],"every set of spectra, redshifts incl. those whose forest edge falls on the wavelength grid, bin size, rank count",
"Tests stack constant spectra at one redshift.",
[S+"picca_continuum.py",S+"continuum_models/base_continuum_model.py"],[("FluxStacker",S+"picca_continuum.py"),("update_mean_cont, _project_normalize_meancont, _normalize_flux",S+"picca_continuum.py"),("stack_spectra",S+"continuum_models/base_continuum_model.py")],obs=["STACKED_FLUX, STACKED_FLUX_RF, CONT tables; cont_params"])
p("C20","A whole qsonic-fit run is correct and independent of the number of ranks",
"For any data set with enough statistics, any option combination and any number of ranks up to the number of healpixel or tile groups, a run finishes on all ranks and writes a delta for exactly the quasars that pass the redshift, SNR, length and validity cuts, each equal to what the documented steps (read, calibrate, mask, select, smooth, fit, coadd) give for that quasar, and the same set of deltas and statistics whatever the number of ranks. The chi2 catalogue lists every fitted quasar once with its fit results, and the attributes file holds the mean continuum, stacked flux and variance functions used in each iteration. Any failure ends all ranks with an error instead of a hang, and a run into an existing output directory replaces the files of the earlier run.",
["inputs","configurations","fault_sequences"],"every generated survey (data, tiles, mocks), option combination, rank count, and injected file fault",
"No existing test runs the script.",
[S+"scripts/qsonic_fit.py",S+"picca_continuum.py",S+"io.py"],[("mpi_run_all, main",S+"scripts/qsonic_fit.py"),("PiccaContinuumFitter.iterate, save_contchi2_catalog",S+"picca_continuum.py")],obs=["output directory"])
p("C21","Inconsistent options are refused and derived options are set",
"qsonic-fit refuses every inconsistent option set (true continuum without mock analysis or without fiducial mean flux or var_lss or together with an input-continuum directory, reversed wavelength windows, mock or healpix-saving or exposure options in tile format) and accepts every other one. True-continuum and input-continuum requests select the corresponding continuum model, repeated arms are read once in a fixed order, and a skip ratio outside [0, 1] or not a number is refused.",
["configurations"],"every combination of options",
"No test enumerates option combinations.",
[S+"scripts/qsonic_fit.py",S+"io.py"],[("args_logic_fnc_qsonic_fit",S+"scripts/qsonic_fit.py"),("_float_range",S+"io.py")],obs=["parse result"])
p("C22","qsonic-calib uses every kept delta once, whatever the number of ranks",
"The calibration script uses every delta in every delta file of the input directory exactly once for any number of ranks, except those whose mean SNR is outside (min, max), whose TARGETID is in the removal list, whose quasar shows BAL features when BAL removal is asked, or whose survey is not kept. The written variance statistics, var_lss/eta functions and stacked flux equal those computed from exactly these deltas, the stacked flux at a wavelength being the weighted mean of 1+delta there, on an equally spaced grid. An unreadable input ends the run on every rank, and a rerun replaces the earlier output.",
["inputs","configurations"],"every set of delta files, rank count, selection option",
"Only the removal-list helper is tested.",
[S+"scripts/qsonic_calib.py"],[("mpi_read_all_deltas, mpi_set_targetid_list_to_remove, mpi_stack_fluxes, mpi_run_all",S+"scripts/qsonic_calib.py")],obs=["variance-stats FITS file"])
p("C23","True, input and fiducial tables are applied to the right quasar and wavelength",
"With the true-continuum model every mock's continuum is its own true continuum at the observed wavelengths times the fiducial mean flux; with input continua every quasar gets the spline of its own rest-frame continuum from the nside-8 nested healpix file of its position, times the mean flux. Quasars missing from the input files, or whose continuum is non-positive or NaN in the forest, are invalid, and the others are unaffected; a file whose FIBERMAP and CONTINUA differ in length is refused. Fiducial mean flux and var_lss are interpolated linearly from the file, var_lss enters the weights, and unequally spaced tables or missing columns are rejected.",
["inputs","configurations"],"every set of continua, file order, missing files or targets, table shape, redshift, position",
"Tests cover one file and one quasar set.",
[S+"continuum_models/true_continuum_model.py",S+"continuum_models/input_continuum_model.py",S+"picca_continuum.py"],[("TrueContinuumModel",S+"continuum_models/true_continuum_model.py"),("InputContinuumModel",S+"continuum_models/input_continuum_model.py"),("_get_fiducial_interp",S+"picca_continuum.py")],obs=["cont_params, forestweight"])
p("C24","Exposures read after fitting carry the coadded quasar's continuum",
"When exposures are read after continuum fitting, every saved exposure delta uses, at each of its wavelengths, exactly the continuum fitted for the coadded spectrum of the same TARGETID, restricted to the wavelengths both cover; arms absent from the fitted spectrum are dropped. Flux, inverse variance and resolution remain those of the exposure, calibrated and masked like the coadded spectra, and one exposure's data never reach another's.",
["inputs","configurations"],"every set of exposures per quasar, masks differing per exposure, arm layout, coaddition mode, surveys",
"test_qsonic_fit covers one artificial exposure list.",
[S+"scripts/qsonic_fit.py",S+"spectrum.py"],[("mpi_read_exposures_after",S+"scripts/qsonic_fit.py"),("Spectrum.slice, drop_arm",S+"spectrum.py")],obs=["exposure Spectrum objects and delta files"])
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+"\n")
