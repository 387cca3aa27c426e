I, H, C, G = "inputs", "histories", "configurations", "programs"
SAMPLED = "Sampled search, not exhaustive: "

prop("U01", "Indices, slices and grids agree with a multidimensional array",
     "NodeIdx and Pos are inverse to each other on every 2D and 3D domain, count nodes in the documented order and refuse other dimensions. Wrap brings an index back into the periodic domain for any offset. Product visits every combination once, in lexicographic order. Slice operations and the Real and RealPart views compute what their name says element by element and change nothing else. A Grid holds what was set, its copies are independent, and Rotate2D moves every node by the angle about the centre, up to interpolation within one node.",
     [I, H], "all domain sizes with unequal sides, offsets, values, sequences of grid operations",
     "Tests use square or tiny domains, where mixed up axes go unseen.",
     ["pfutil/util.go", "pfutil/grid.go", "pfutil/product.go"],
     [("NodeIdx, Pos, Wrap", "pfutil/util.go"), ("Grid", "pfutil/grid.go")],
     SAMPLED + "domains of a few hundred nodes.",
     "property-based testing: round trip, model of a multidimensional array")

prop("U02", "Drawing, blurring, kernels and Voronoi tessellation fill the right nodes",
     "A chain of affine transformations applies them in the order they were appended and leaves the appended one alone. Draw sets exactly the nodes whose position under the inverse transformation lies inside the shape, in 2D and 3D, whatever transformation was used; bounding boxes contain the shape and invalid ones are refused. Blur replaces a field by its normalised periodic kernel average, conserving the sum. Box kernels have the documented profile. Voronoi assigns every node to its closest seed over the periodic boundary.",
     [I, C], "all boxes, balls, transformations, domains, kernels, seeds and fields",
     "Tests draw one shape in two dimensions and blur one peak.",
     ["pfutil/shapes.go", "pfutil/affine.go", "pfutil/blur.go", "pfutil/voronoi.go"],
     [("Draw, BBox", "pfutil"), ("Affine.Append", "pfutil"), ("Blur, Voronoi", "pfutil")],
     SAMPLED + "nodes within rounding distance of a boundary, or of equal distance to two seeds, are judged leniently.",
     "property-based testing: direct evaluation at every node, conservation laws")

prop("D01", "The field database returns exactly what was saved",
     "For any history of saves of fields, attributes, text attributes, time series and comments, by one or several connections to one file, every table holds what was saved under the right simulation and step and nothing else; Load and LoadLast return each field bit by bit, not-a-number and infinities included, from the newest or the chosen step. Data that does not fit is refused and leaves no trace. A solver whose callback is a database saves its fields at every epoch.",
     [H, I], "all sequences of database operations and reopenings, domains in 2D and 3D, field values",
     "Tests save one or two fields once.",
     ["pf/database.go"],
     [("SaveFields, Load, LoadLast, SetAttr, SetTextAttr, TimeSeries, Comment", "pf/database.go")],
     SAMPLED + "histories of up to a dozen operations; saving one epoch twice is not judged.",
     "stateful model-based testing against a reference model of all tables")

prop("D02", "Files written for fields and grids can be read back exactly",
     "Binary files are big endian and hold each field exactly under the documented name, bytes scale from the minimum to the maximum, csv files hold positions and six decimals and are read back, or refused for another domain. An XDMF file names the binary files that exist, their type, byte order and dimensions so that a reader finds the value of every node at its place, and is well formed XML for all names. Orientations and grids are written node by node.",
     [I, C], "all fields, names, domains in 2D and 3D, numbers of epochs",
     "Tests check that some file exists, or write a square domain.",
     ["pf/fileIO.go", "pf/xdmf.go", "pf/util.go", "pfutil/grid.go"],
     [("Float64IO, Uint8IO, CsvIO, LoadCSV", "pf/fileIO.go"), ("XDMF", "pf/xdmf.go")],
     SAMPLED + "csv values are judged to the six decimals the format keeps.",
     "property-based testing: round trip through an independent reader of the files")

prop("D03", "The db commands report the contents of a database truthfully",
     "gopf db list shows the newest simulations first, at most as many as asked for; time, attr and comment show, add and overwrite what belongs to the simulation they were given, or to the newest one with --new; info summarises the whole database. Nothing else in the database changes, and a missing database or simulation is reported and not created.",
     [H, I, C], "all databases, flags and sequences of commands",
     "The commands have no tests.",
     ["cmd/list.go", "cmd/attr.go", "cmd/comment.go", "cmd/info.go", "cmd/time.go"],
     [("listCmd, attrCmd, commentCmd, infoCmd, timeCmd", "cmd")],
     SAMPLED + "databases of a handful of simulations; layout of the tables is not judged.",
     "property-based testing: differential against the database read directly")

prop("D04", "Exported csv files hold the chosen simulation, fields and steps exactly",
     "gopf db export writes, for every spelling of the two data types, the time series of one simulation or its fields at one step, the last step or all steps: one line per step or node, with the values and positions in the database and under the documented file names. Asking for a step that is not there fails and writes no file; a file that could not be written in full is not announced like the others.",
     [I, C], "all databases with several simulations, fields, steps, flags",
     "The command has no tests.",
     ["cmd/export.go"],
     [("exportCmd", "cmd/export.go")],
     SAMPLED + "values to the printed precision; time series with missing values are not judged.",
     "property-based testing: differential against the data that was saved")

prop("D05", "Contour and line plots show each value at its place",
     "A contour plot shows higher values brighter, each where the field has it, x to the right and y upwards, whatever the order of the lines in the csv file. A line plot shows, for the selected fields, the values along the chosen line in the order of their positions, in common axes and with a legend. Invalid selections are refused.",
     [I, C], "all csv files, domains with unequal sides, fields, axes and lines",
     "The commands have no tests.",
     ["cmd/contour.go", "cmd/lineplot.go"],
     [("contourCmd", "cmd/contour.go"), ("lineplotCmd", "cmd/lineplot.go")],
     SAMPLED + "contours are judged by the position of one peak.",
     "property-based testing: the image is read back; metamorphic relation over line order")

prop("D06", "The elast command line computes what the library computes",
     "gopf elast energy prints the strain energy of the inclusion described by its JSON input, equal to the library result for the same inputs. gopf elast template writes a complete input that energy accepts: a sphere twice as stiff as its isotropic matrix. Input that cannot be decoded is refused.",
     [I, C], "all JSON inputs: elastic constants, half axes, eigenstrains, domain sizes",
     "The command line has no tests.",
     ["cmd/energy.go", "cmd/template.go", "elasticity/strainEnergyCLI.go"],
     [("CalculateEnergy", "elasticity/strainEnergyCLI.go"), ("templateCmd", "cmd/template.go")],
     SAMPLED + "the library result itself is judged by E02.",
     "property-based testing: differential between command line and library, round trip of the template")

prop("D07", "A killed or failing run leaves whole data, and no failed write passes for done",
     "When the process is killed at any point, the database holds everything that was finished before, and each field of a step, set of attributes, text attributes, time series, comment and the table of positions either as a whole or not at all, and it can be saved to again. When a statement or a commit fails, or there is no space, the call ends with an error instead of returning as if the data were stored, and the database is whole just so. The same goes for binary, byte, csv, grid and XDMF files: a call that reports nothing has written the file in full.",
     ["crash_points", "fault_sequences", H, I], "all crash points (before and after each statement and commit), failing statements, limits on the size of files, histories of database operations",
     "Tests run on a disk with space and end every process regularly.",
     ["pf/database.go", "pf/fileIO.go", "pf/xdmf.go", "pfutil/grid.go"],
     [("transactions of insertRealPart, SetAttr, SetTextAttr, TimeSeries, populatePositionsTable", "pf/database.go"), ("SaveFields, SaveFloat64, SaveCsv", "pf/fileIO.go"), ("Grid.SaveCsv", "pfutil/grid.go"), ("WriteXDMF", "pf/xdmf.go")],
     SAMPLED + "a kill is a copy of the database and its journal at that moment, so loss of power (data the system has not written yet) is not covered; several fields of one step are not one unit.",
     "stateful testing with injected faults: crash points and failing writes against a model of the finished operations")
