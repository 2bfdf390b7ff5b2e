# More of the list of properties; read by mkdocs.py.
D = S + "diagnostics/"
P("P18", "Regions contain, grid and sample exactly the points of their shape",
  "For boxes, rectangles, discs, cylinders, balls and combinations of them: the regular grid is centred in the region, keeps the given spacing, lies inside and leaves no gap at the edges; "
  "membership is decided for each point on its own and agrees with the shape (with its padding); random samples lie inside, are spread uniformly by volume, and depend only on the generator. "
  "Regions that overlap are refused when combined, disjoint ones are accepted, and a combination is the union of its parts.",
  "inputs", "all shapes, sizes, centres, spacings, dimensions, paddings and combinations, for points on and off the edge",
  "Tests plot regions, or check samples of a single region with fixed parameters.", [S + "room/region.py"],
  [("shapes", S + "room/region.py:Rectangle, Disc, Cuboid, Cylinder, Ball"), ("combination", S + "room/region.py:CombinedRegion")],
  "Regions.tla grows the grid from the centre; its invariants hold for all small regions, each of which the real code is asked about; random larger regions are judged by TLC. "
  "Uniformity is a bound of six standard deviations on the count in each cell.", TRACE, observe=["equally_spaced_points", "is_in_region", "sample_points"])

P("P19", "Figure folders and the files describing a simulation tell the truth",
  "Every simulator with a figure folder gets a new folder whose name was not in use, or the next number after the highest one, and never writes into or changes an existing one; without a folder nothing is written. "
  "config.yaml in the folder, read back, gives exactly the parameters of that simulator, independent of later changes to the setup; the metadata describe the arrays, path types and processors that were used, with a file about processors only if there are any. "
  "Loading a configuration restores the parameters, also for folders given as strings. Names of processors are unique, and numbered files are found in their order.",
  "histories", "all sequences of creating simulators, changing and loading parameters, running, and deleting folders",
  "Tests create one folder and look at whether files exist.",
  [S + "fileutilities.py", S + "simulator.py", S + "configutil.py", S + "array.py"],
  [("folders", S + "fileutilities.py:get_unique_folder_name, get_multiple_unique_folder_names, find_all_earlier_files"), ("configuration", S + "configutil.py:SimulatorInfo, load_from_file, save_to_file"),
   ("metadata", S + "fileutilities.py:add_to_metadata; simulator.py:Simulator")],
  "All histories of Files.tla of a bounded length are replayed on a real file system in a scratch folder, and random longer ones with all parameters are judged event by event. Trusts that the scratch file system behaves.",
  TRACE, state=["folders in the base folder, and what is written in each"], observe=["contents of the figure folder", "SimulatorInfo after loading"])

P("P21", "Derived diagnostics are the stated function of what was recorded",
  "Signal powers, power ratios (with their smoothing), sound field powers over intervals of samples, signal summaries, state powers, state summaries and comparisons, and eigenvalues are, at each of their samples, "
  "exactly the documented function of the channels that were selected of the signals or state at that sample. They do not depend on buffer, chunk or block sizes, and preprocessing changes only what is exported.",
  "configurations", "all selections of channels, save frequencies and intervals, smoothing lengths, buffer geometries and signals",
  "Tests check that such diagnostics do not crash, or the power of one signal.", [D + "diagnostics.py", D + "core.py"],
  [("derived diagnostics", D + "diagnostics.py:SignalPower, SignalPowerRatio, SoundfieldPower, StatePower, StateComparison, SignalSummary")],
  "DerivedTrace.tla extends the machine of AspSim, so that the signals that powers and ratios are derived from are TLC's, not the code's.", TRACE, observe=["get_output of the diagnostics"])

P("P22", "Generated points lie where the chosen pattern puts them",
  "Points along a rectangle are evenly spaced along its circumference, start where the offset says, have the requested number and stay on the edge (or beyond it by the requested extra distance for every other point); points on circles, "
  "discs, grids, sunflowers and cylinders have the requested number, spacing, radius and height. Converting between Cartesian, polar and spherical coordinates is exact in both directions, for points in all quadrants and on the axes.",
  "inputs", "all side lengths, numbers, offsets, heights and radii; all directions", "Tests check the number of points for a few values.", [S + "room/generatepoints.py"],
  [("patterns", S + "room/generatepoints.py:equidistant_rectangle, equiangular_circle, concentrical_circles, uniform_filled_rectangle, uniform_disc, uniform_cylinder"), ("coordinates", S + "room/generatepoints.py:cart2pol, cart2spherical")],
  "Points.tla walks along the edge. All small walks are generated and asked of the code, random ones are judged by TLC in whole numbers. Superseded variants (names with _old, _for_fewer) are out of scope.",
  TRACE, observe=["returned coordinates"])

P("P25", "Pictures of sound fields show each value at its position",
  "Values at points of a rectangular grid, given in any order, with positions that carry rounding errors, are arranged into a picture with each value exactly once, x growing to the right and y growing upwards; number of pixels, extent, "
  "size and colour limits agree with the positions and values of all that is shown. Inputs are not changed. Comparing several sound fields shows each in its own plot under its own label, with the arrays drawn on top.",
  "inputs", "all orders of grid points, sizes of grids, numbers of values per point, rounding errors, and arrays", "Tests have one picture with sorted points.", [D + "soundfieldplot.py"],
  [("arrangement", D + "soundfieldplot.py:sort_for_imshow, get_num_pixels"), ("plots", D + "soundfieldplot.py:sf_plot, compare_soundfields, size_of_2d_plot")],
  "Picture.tla draws pixel by pixel. All orders of all small grids are asked of the code; random grids are judged, with what a figure shows read from matplotlib's objects.", TRACE, observe=["returned arrays", "axes of the figures"])

P("P26", "Frequency responses of paths are the transform of their responses",
  "The frequency responses of a collection of arrays have, for each pair of source and microphone that has a path, each element and each real frequency up to half the sample rate, the discrete Fourier transform of the impulse response (cut off after as many samples as there are frequencies, or followed by zeros), "
  "in the documented layout (frequency, microphone, source), with the frequencies in Hz. Odd numbers of frequencies are refused.",
  "inputs", "all sets of arrays and paths, lengths of responses and numbers of frequencies", "Tests compare shapes for two arrays.", [S + "array.py", S + "simulator.py"],
  [("get_freq_paths", S + "array.py:ArrayCollection.get_freq_paths")],
  "Spectrum.tla turns every sample to its direction and collects; the sums are compared with the code's numbers. The last step, from directions to a complex number, is floating point.", TRACE, observe=["get_freq_paths"])

P("P27", "Room responses have their arrivals at the right time and strength",
  "With image sources, the direct sound arrives after the distance divided by the speed of sound, plus the extra delay, in samples, with an amplitude of one over the distance, for each element of each array and independent of how elements are divided into arrays or batches, "
  "where the room is centred, and of other arrays. Reflections between two walls arrive when a wavefront that bounces between them passes, each bounce costing the same factor. Responses are cut off at the maximal length. The reverberation times and the truncation written down are those of all the responses.",
  "configurations", "all rooms, centres, positions, speeds of sound, sample rates, extra delays, lengths and numbers of elements", "Tests compare one or two responses with a tolerance or with themselves.",
  [S + "room/roomimpulseresponse.py", S + "simulator.py", S + "array.py"],
  [("responses", S + "room/roomimpulseresponse.py:ir_room_image_source_3d"), ("paths of a set-up", S + "simulator.py:SimulatorSetup; array.py:ArrayCollection.set_path_types")],
  "Room.tla moves two wavefronts along an axis; its arrivals are compared with the responses, exactly for delays of whole samples. Extra_delay = 0 is a known finding. Trusts that a wall absorbs as Sabine's formula says.",
  TRACE, observe=["responses in arrays.paths of the simulator"])

P("P28", "Figures show exactly what was recorded, under the right names",
  "Each figure of a diagnostic has one line for each channel or label, at the samples and with the values that were recorded, and is named after the recorder; matrices, impulse responses and sound fields are drawn with the values they had, a sound field over the area of its microphones and in colours that range from its smallest value to its largest; "
  "labels appear once each in the legend. The figure of the set-up shows every element of every array at its position, and the walls only if there are any. Figures are written as the chosen type of file, or not at all.",
  "configurations", "all kinds of diagnostics and plots, names, channels, indices and types of files", "Tests check that a file exists.", [D + "plot.py", D + "diagnostics.py", S + "array.py"],
  [("plots", D + "plot.py"), ("output", S + "fileutilities.py; " + D + "plot.py:output_plot"), ("positions", S + "array.py:ArrayCollection.plot")],
  "FiguresTrace.tla derives what a figure contains from the same traces as P04; figures are captured where they are written and read from matplotlib's objects.", TRACE, observe=["figures as they are written"])

P("P29", "Directional microphones hear the front and are never ignored",
  "A differential cardioid made of the signals of two omnidirectional microphones hears what comes from the front exactly as the main microphone does (without its mean), and nothing of what comes from behind, in every row, "
  "for each frequency of its filter, and it does not change the signals it is given; below the frequency asked for, it fades out. "
  "A directivity that was asked for an array is either heard in its responses or refused, never treated as omnidirectional.",
  "inputs", "all distances, filter lengths, periodic sounds from both sides, and directivities of all elements", "No test.", [S + "room/directional.py", S + "room/roomimpulseresponse.py", S + "array.py"],
  [("differential cardioid", S + "room/directional.py:differential_cardioid_microphone"), ("directivity of arrays", S + "room/roomimpulseresponse.py:create_path; " + S + "array.py")],
  "Cardioid.tla moves two waves past two microphones; that both microphones determine the wave from the front, and how the one from behind cancels, are invariants for all short waves. Sounds between the frequencies of the filter, where it is an approximation of unstated accuracy, are out of scope.",
  TRACE, observe=["returned signal", "responses in arrays.paths of the simulator", "NotImplementedError"])
