#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/rules.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

C = "LitlContainer/LitlContainer/"
R = "LitlRaster/LitlRaster/"
T = "LitlTransforms/LitlTransforms/"
Y = "LitlTypes/LitlTypes/"
U = "LitlRun/LitlRun/"
I = "LitlIo/LitlIo/"

P = []


def prop(id, title, statement, over, text, why, files, mech, rule, assumptions=(), technique="model-based property testing",
         note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mech, rule=" ".join(rule.split()),
                  assumptions=[" ".join(a.split()) for a in assumptions], technique=technique, note=" ".join(note.split())))


prop("C01", "Rasters are stored row-major: positions and storage indices are in bijection",
     """For a raster of any element type, dimension (fixed at compile time or chosen at run time) and data holder, the
     storage index of a position is the sum of its coordinates times the products of the preceding lengths, the first
     axis being the fastest; index and subscript access therefore reach each pixel exactly once and read or write only
     that pixel. The shape, lengths, size, domain and iterator range reported by the raster are those of the shape it was
     built with, and its domain is visited in storage order. The index computation does not overflow for any shape whose
     size fits in the index type.""",
     ["inputs", "configurations"],
     "all shapes of dimension 0 to 6 (fixed or variable dimension), all positions, every data holder, const or not",
     "Tests look at one or two small rasters; wrong strides, swapped axes, 32-bit intermediate overflow or errors which "
     "only show for degenerate or variable dimension need arbitrary shapes.",
     [R + "Raster.h", R + "Vector.h", R + "Box.h"],
     [("index computation", R + "Raster.h: Raster::index(), operator[]"),
      ("strides and sizes", R + "Vector.h: shapeSize(), shapeStride()"),
      ("domain", R + "Raster.h: Raster::domain()")],
     """Random shape (dimension 1 to 5 fixed or 0 to 6 variable, up to a few hundred pixels; huge shapes for the index
     alone), random holder; every position of the domain is indexed, read and written, and compared to an independent
     row-major offset. Non-trivial: more than one pixel and more than one axis (large_index: offset beyond 32 bits).""")

prop("C02", "Boxes behave as sets of positions: iteration, extents, shifts, clamping",
     """A box spans exactly the positions between its front and back, bounds included, along every axis: iterating over
     it visits each of them once, in row-major order, and none for an empty box; its size, lengths, shape and equality
     agree with that set. Translating, growing, shrinking, intersecting, projecting and membership tests on boxes agree
     with the same operations on sets of positions. Clamping a position into a box or shape returns the nearest contained
     position and leaves contained ones unchanged.""",
     ["inputs", "histories"],
     "all boxes of dimension 0 to 5, fixed or variable, including empty, single-position, negative and huge-coordinate "
     "ones; all chains of box operators",
     "Tests iterate over one box or two; carries across axes, empty boxes, negative bounds and chained operators are not "
     "sampled.",
     [R + "Box.h", R + "BoxIterator.h", R + "Vector.h"],
     [("iteration with carry", R + "BoxIterator.h: BoxIterator"),
      ("box algebra", R + "Box.h: operators +=, -=, &=, operator&, +, -"),
      ("clamp", R + "Box.h: clamp()")],
     """Random box (dimension, bounds possibly negative or beyond 32 bits, possibly empty), random history of operators,
     random positions in, at the border of and out of the box; compared with a brute-force set model. Non-trivial:
     more than one position, or empty, or an operator which changed the box.""")

prop("C03", "The margin of a box is partitioned by its surrounding boxes",
     """For any box and any margin around it, the surrounding boxes are pairwise disjoint, do not intersect the box itself,
     and together with it cover exactly the box extended by the margin. Null margins along any axis yield no spurious
     positions. The box itself is not modified.""",
     ["inputs"], "all boxes of dimension 1 to 4 (fixed or variable) and all margins, null ones along any subset of axes and sides included",
     "The partition is a statement about every position of every box and margin; the test checks one shape.",
     [R + "Box.h"],
     [("margin decomposition", R + "Box.h: Box::surround()")],
     """Random box, random margin; the multiset of the positions of the returned boxes is compared with the margin set.
     Non-trivial: at least two non-null margin components.""")

prop("C04", "Checked access accepts exactly valid positions and indices, backward ones too",
     """Checked access at a position (or linear index) returns the very element designated by it when each coordinate is in
     [-length, length), negative coordinates counting backward from the end of their axis, and otherwise raises an
     out-of-bounds error without touching any element. This holds for each coordinate separately, for rasters of any
     dimension, sequences and vectors alike. The bounds helper raises if and only if the value is out of the closed
     interval.""",
     ["inputs"], "all shapes, all positions and indices, near and far out of bounds, each holder and constness",
     "Tests probe a handful of positions of one raster; each axis, side and off-by-one limit is a separate case.",
     [R + "Raster.h", C + "ContiguousContainer.h", C + "DataContainer.h", Y + "Exceptions.h"],
     [("position check", R + "Raster.h: Raster::at(Position)"),
      ("index check", C + "ContiguousContainer.h or DataContainer.h: at(Index)"),
      ("bounds check", Y + "Exceptions.h: OutOfBoundsError::mayThrow()")],
     """Random shape and a position with coordinates inside, at each limit, one beyond, or far out; the returned address
     or the exception is compared with the definition. Non-trivial: out of bounds or backward.""")

prop("C05", "Balls contain exactly the positions within their radius, and iterate over them",
     """A ball of any center, radius and supported pseudo-norm contains a position if and only if the norm of its offset to
     the center does not exceed the radius. Iterating over the ball visits each contained position exactly once, and its
     size is the number of those. Copying, moving and translating a ball behaves as on the corresponding set.""",
     ["inputs"], "all centers (negative ones included), radii, norms L1, L2 and higher, and dimensions, fixed or variable",
     "Tests check a few radii in 2D or 3D; emptiness, radius zero, exact-limit radii and higher dimensions are unsampled.",
     [R + "Ball.h", R + "BallIterator.h"],
     [("ball", R + "Ball.h: Ball"),
      ("iteration", R + "BallIterator.h: Iterator")],
     """Random center (also far away), radius (integral values, multiples of 1/8, values next to an integer), norm and dimension; membership,
     iteration and size are compared with a brute-force enumeration of the bounding box. Non-trivial: radius >= 1.""")

prop("C06", "Construction, copies and moves give the right size, values and ownership",
     """A raster, sequence or vector has exactly the size, shape and values it was constructed with, whatever the source
     (shape, list, iterators, array, vector, raw pointer or moved container) and data holder, and a size mismatch with a
     fixed or given size raises an error instead of reading out of bounds. A copy owns independent data and compares equal
     to its source, a view shares the memory it was given, and moving data in or out preserves values without copying.
     Comparison, emptiness, size and text output agree with the content.""",
     ["inputs", "histories"], "all shapes and values, every constructor, holder (vector, array, pointer, aligned buffer) and element type",
     "Tests instantiate each constructor once with a small size; aliasing and size mismatches need many combinations.",
     [R + "Raster.h", C + "Holders.h", C + "DataContainer.h", C + "Sequence.h", C + "ContiguousContainer.h"],
     [("holders", C + "Holders.h: StdHolder specializations"),
      ("container", C + "DataContainer.h: DataContainer"),
      ("raster constructors, moveTo, rasterize", R + "Raster.h"),
      ("sequence constructors", C + "Sequence.h")],
     """Random shape and values, random construction way and holder; content, addresses, independence (write to one, read
     the other) and errors are compared with a plain vector, under AddressSanitizer. Non-trivial: more than one element
     (size errors: a mismatch).""")

prop("C07", "Aligned buffers are aligned, exclusively owned, never leaked nor freed twice",
     """Through any history of construction, copy, move, assignment, swap, release and destruction, an aligned buffer
     points to memory with at least the requested alignment, holds the expected values, and allocated memory is freed
     exactly once. Viewing foreign memory requires it to be aligned as requested, otherwise an error is raised, and never
     frees it; releasing hands the ownership over to the caller. The alignment reported for a memory address divides it.""",
     ["histories", "inputs"], "all histories over a pool of buffers, sizes (null one included), alignments and element types",
     "Double frees and leaks depend on the order of several moves and assignments; tests do one copy and one move.",
     [C + "AlignedBuffer.h"],
     [("allocation and ownership", C + "AlignedBuffer.h: AlignedBuffer"),
      ("alignment", C + "AlignedBuffer.h: alignment(), isAligned()")],
     """Random history of up to tens of operations over a pool of buffers, values and ownership being tracked by a model,
     with malloc/free hooks and AddressSanitizer counting allocations. Non-trivial: more than two steps.""",
     technique="stateful model-based property testing")

prop("C08", "Slices and sections are views of exactly the pixels of their region",
     """A slice or section of a raster is a view, sharing memory, of exactly the pixels of the requested region, in the same
     order and with the right shape and dimension; reading or writing it is reading or writing these pixels and no other.
     Whether a region is declared contiguous agrees with its definition (complete axes below, flat axes above), and a
     non-contiguous region is refused with an error. Sections of sections compose as expected, for fixed and variable
     dimension and const or mutable rasters.""",
     ["inputs"], "all shapes, dimensions and regions, contiguous or not, all section indices and ranges",
     "Tests take one slice of one raster; contiguity has many degenerate cases (lengths of 1, flat or whole axes).",
     [R + "Raster.h"],
     [("contiguity", R + "Raster.h: isContiguous()"),
      ("slices", R + "Raster.h: slice()"),
      ("sections", R + "Raster.h: section()")],
     """Random raster of distinct values, random region; view address, shape, values and write-through are compared with
     the list of positions of the region. Non-trivial: several positions, or a refused region.""")

prop("C09", "Subrasters access and iterate over exactly the pixels of their region",
     """A subraster of a raster restricts it to a region without copying: iterating over it reads, or writes, each pixel of
     the region once, in row-major order, and nothing else, whatever the region. Constness is propagated, forward and
     random jumps of the iterators agree with repeated increments, and algorithms over the iterators see the expected
     values. Copying from and to subrasters transfers exactly their pixels.""",
     ["inputs"], "all shapes, dimensions and regions (flat, single-pixel or whole), const and mutable parents",
     "Tests iterate over one rectangular region; line jumps over several axes are only exercised by arbitrary regions.",
     [R + "Subraster.h", R + "SubrasterIterator.h"],
     [("region view", R + "Subraster.h: Subraster"),
      ("iterator", R + "SubrasterIterator.h: SubrasterIterator")],
     """Random raster of distinct values, random region, random access mode; compared with the list of positions of the
     region, other pixels being checked untouched. Non-trivial: the region has more than one pixel and is not the whole
     raster.""")

prop("C10", "Arithmetic operators are element-wise and leave their operands alone",
     """Arithmetic operators (+, -, *, /, %, increments, sign) between containers, or between a container and a scalar on
     either side, yield the element-wise result of the same operation on the elements, with the shape of the operand.
     Compound assignment modifies the left operand only and returns it; binary operators modify neither operand; both
     forms agree, including when an operand aliases the container itself or one of its elements. This holds for
     rasters, sequences and vectors of any arithmetic or complex element type and chained expressions.""",
     ["inputs", "programs"], "all operators, operand kinds and orders, element types, values, sizes and aliasing patterns",
     "Tests cover one operator per traits class; aliasing, non-commutative scalar-first forms and returned references are "
     "not covered.",
     [C + "Arithmetic.h", R + "Vector.h"],
     [("operator traits", C + "Arithmetic.h: VectorArithmeticMixin, EuclidArithmeticMixin, ArithmeticMixin"),
      ("vector operators", R + "Vector.h")],
     """Random container and operand (container, scalar, own element), random operator and form; compared with a loop over
     the elements. Non-trivial: more than one element.""")

prop("C11", "Mathematical functions apply element-wise, in place or as new containers",
     """Each provided mathematical function applies the standard function of the same name to each element, independently
     of its neighbours: as a free function it returns a new container of the same shape and leaves its arguments alone;
     as a method it modifies the container in place and returns it. Two-argument functions combine elements at the same
     index, or with a scalar on either supported side, in the right order. Special values (NaN, infinities, signed zeros)
     are treated as by the standard function.""",
     ["inputs"], "all functions, element types, values (special ones included), sizes and operand forms",
     "Tests apply a few functions to a few values; a swapped argument, a wrong function for an alias or a missed element "
     "needs each function against the standard one.",
     [C + "Math.h"],
     [("function macros", C + "Math.h: MathFunctionsMixin and free functions")],
     """Random container (special values included), each function of the list in each form; results are compared bitwise
     (NaN equal) with the std function in a loop. Non-trivial: more than one element.""")

prop("C12", "Fillers, generators, in-place functions and extrema follow their definitions",
     """Filling sets every element to the value; ranges give start plus index times step; linear spaces start and end
     exactly at the given bounds with evenly spaced values; generating and applying functions call them once per element
     in storage order with the matching elements of the other containers. Minimum and maximum, their positions and
     membership tests agree with the definition over all the elements. These hold for any size, empty and singleton
     ones included, and when the arguments are elements of the container.""",
     ["inputs"], "all containers, sizes, element types, arguments (own elements included)",
     "Tests check one size per function; bounds, sizes 0 to 2, integer rounding and argument aliasing are unsampled.",
     [C + "ContiguousContainer.h", C + "DataContainer.h", C + "Sequence.h", R + "Raster.h", R + "Vector.h"],
     [("fill, range, linspace, generate, apply", C + "ContiguousContainer.h"),
      ("extrema", C + "ContiguousContainer.h: min(), max(), minmax and DataDistribution")],
     """Random container and arguments; each operation is compared with its definition in a loop, call order and number
     of calls being recorded. Non-trivial: more than one element, distinct bounds.""")

prop("C13", "Distribution statistics match their definitions, in any order of queries",
     """For any data, the estimators of its distribution (size, extrema, sum, mean, variance biased or not, standard
     deviation, quantiles, median, median absolute deviation) equal their textbook definition on the sorted values,
     quantiles interpolating linearly between the two nearest ranks. Queries do not depend on their order or
     repetition, nor on the order of the data, and do not modify the queried container. Integer data does not lose its
     fractional results.""",
     ["inputs", "histories"], "all data (size, order, ties, types), quantile rates and sequences of queries",
     "Queries partially sort internal data, so a wrong answer may need a specific order of calls; tests query once.",
     [C + "DataDistribution.h"],
     [("estimators", C + "DataDistribution.h: DataDistribution"),
      ("lazy partial sort", C + "DataDistribution.h: quantile(), nth()")],
     """Random values (ties, sorted, extreme), random sequence of queries; compared with definitions on an independently
     sorted copy in long double. Non-trivial: more than two values.""",
     technique="stateful model-based property testing")

prop("C14", "Histograms count the values of each bin",
     """For any data and increasing bin edges, the count of each bin is the number of values at or above its lower edge and
     below its upper edge, the last bin including its upper edge. Values out of the edges are ignored, and the counts sum
     up to the number of values in the range. Nothing depends on the order of the data.""",
     ["inputs"], "all data and edges, values equal to edges, duplicated edges, outliers and empty data included",
     "A value on an edge, below the first or at the last one is the interesting case; the test has one plain histogram.",
     [C + "DataDistribution.h"],
     [("binning", C + "DataDistribution.h: histogram()")],
     """Random values and sorted edges, a third of which are picked among the values; compared with counting per bin.
     Non-trivial: more than one bin and some value in range.""",
     ["Values equal to the last edge belong to the last bin (documented choice)."])

prop("C15", "Random noise: range, reproducibility, additivity, robustness and moments",
     """Each noise generator yields the same values for the same seed, and different ones for different seeds or successive
     draws; uniform values stay in the closed given range, Poisson values are naturals, impulse noise either keeps a pixel
     or sets it to one of the given values, and means, variances and frequencies agree with the parameters. Called without
     input, a generator generates values; called with an input, uniform and Gaussian noises are the generated value
     plus the input, and Poisson noise has the input as its mean. Uniform, Gaussian and stable Poisson noises at an index do
     not depend on the values at other indices.""",
     ["inputs", "histories"], "all generators, parameters, seeds, element types (complex included) and containers",
     "Tests check the extrema or the mean of one sample.",
     [C + "Random.h"],
     [("generators", C + "Random.h: UniformNoise, GaussianNoise, PoissonNoise, ImpulseNoise"),
      ("generation and application", C + "Random.h: RandomGenerator")],
     """Random generator, parameters and seed; two generators of equal seeds are compared in different calling forms, and
     sample moments and frequencies are compared with the parameters at more than six standard errors. Non-trivial:
     more than one element.""",
     ["Statistical bounds are at least six standard errors wide; seeds are drawn from the case itself, so that runs are "
      "deterministic."])

prop("C16", "Extrapolation gives in-domain values inside and the boundary condition outside",
     """An extrapolated raster returns the pixel value at each position of the domain; elsewhere it returns the constant,
     the value of the nearest pixel, or the value of the periodic continuation of the raster, per axis, as requested.
     This holds arbitrarily far from the domain in each direction and for combinations of axes in and out of bounds.
     The source is not modified, and no memory out of the raster is read.""",
     ["inputs"], "all shapes, dimensions, positions near, at and far from each side, and boundary conditions",
     "Tests probe a couple of positions; negative multiples of the length and mixed in/out axes are not covered.",
     [T + "Interpolation.h", T + "InterpolationMethods.h"],
     [("boundary conditions", T + "InterpolationMethods.h: OutOfBoundsConstant, NearestNeighbor, Periodic"),
      ("extrapolator", T + "Interpolation.h: Extrapolator")],
     """Random raster, random positions in a wide neighbourhood, all conditions; compared with per-axis clamping and modulo
     under AddressSanitizer. Non-trivial: the position is outside.""")

prop("C17", "Interpolation is the separable weighted sum of neighbours, exact at pixels",
     """Interpolation at any real position equals the tensor product of the one-dimensional scheme (nearest, linear or
     Catmull-Rom-like cubic) over the neighbouring pixels, extrapolated by the requested boundary condition. At integral
     positions it returns the pixel value, and linear interpolation reproduces affine functions. Negative positions and
     positions beyond the domain are treated as any other.""",
     ["inputs"], "all shapes, dimensions 1 to 4, real positions (negative, integral, half-way), values and conditions",
     "Tests interpolate at a few positive positions; negative floors, half-way rounding and axes order need search.",
     [T + "Interpolation.h", T + "InterpolationMethods.h", Y + "TypeUtils.h"],
     [("schemes", T + "InterpolationMethods.h: NearestNeighbor, Linear, Cubic"),
      ("interpolator", T + "Interpolation.h: Interpolator")],
     """Random raster, position and boundary; compared with the explicit weighted sum in long double with a relative
     tolerance. Non-trivial: the position is strictly between pixels.""",
     ["Without extrapolation, positions are restricted to those whose neighbours are in the domain."])

prop("C18", "Kernel correlation is the exact weighted sum over the window, everywhere",
     """Correlating a raster with a kernel gives, at each position, the sum over the kernel of its coefficients times the
     extrapolated input at the position shifted by the coefficient offset to the kernel origin. The result does not
     depend on whether the pixel lies near a border, on the chosen overload, or on the shape of the kernel relative to the
     input, and inputs are left alone.""",
     ["inputs"], "all input and kernel shapes (kernels larger than the input included), origins, boundary conditions",
     "Inner and border pixels follow different code paths, whose split depends on shape, window and origin; tests use one.",
     [T + "Kernel.h", T + "Interpolation.h", R + "Box.h"],
     [("correlation", T + "Kernel.h: Kernel::correlate(), correlateTo()"),
      ("inner and border split", R + "Box.h: Box::surround()"),
      ("construction", T + "Kernel.h: kernelize()")],
     """Random small integer input and kernel, origin anywhere in the kernel, all conditions and calling forms; compared
     with the direct sum, exactly. Non-trivial: kernel and input of more than one pixel.""",
     ["The origin lies in the kernel window."])

prop("C19", "Line and separable kernels agree with the equivalent N-dimensional kernel",
     """Correlating with a line kernel along an axis gives, at each sample, the sum of the coefficients times the input
     around it, values out of the input counting for zero; a separable kernel gives the same result as applying its line
     kernels successively, and as its equivalent N-dimensional kernel. Usual kernels (Sobel, Prewitt, Scharr, Laplacian,
     ...) have their documented coefficients, along the requested axes. Sizes, windows and origins of composed kernels
     are those of the equivalent one.""",
     ["inputs"], "all kernels (even sizes, any origin, longer than the input), axes, input shapes and samplings",
     "Tests apply a three-element kernel along one axis; borders, even kernels and axis bookkeeping are unsampled.",
     [T + "LineKernel.h", T + "SeparableKernel.h", T + "Kernel.h"],
     [("line correlation", T + "LineKernel.h: LineKernel"),
      ("composition", T + "SeparableKernel.h: SeparableKernel")],
     """Random kernels and inputs of small integers; compared with direct sums, exactly. Non-trivial: kernel and input of
     several elements.""",
     ["The product of two separable kernels along a same axis is a recorded finding.",
      "Intermediate values are computed in the output type."])

prop("C20", "Samplings enumerate exactly their samples, and sparse correlation follows",
     """A sampling with given front, back and step enumerates front, front plus step, ... up to back at most, without ever
     going out of the data: its size, indices, values, iterators and write access agree with that list, for one axis or
     for N-dimensional positions. Moving a sampling shifts every sample by the same offset. Correlating the samples with a
     kernel gives the dense correlation evaluated at these samples.""",
     ["inputs", "histories"], "all fronts, backs, steps and sizes (steps larger than the range, singletons), data strides and kernels",
     "Tests use one or two samplings; last-sample rounding and combinations of step and border need search.",
     [R + "Sampling.h", T + "LineKernel.h", T + "Convolution.h"],
     [("index sampling", R + "Sampling.h: IndexSampling"),
      ("data samples", R + "Sampling.h: DataSamples and its iterator"),
      ("position sampling", R + "Sampling.h: PositionSampling"),
      ("sparse correlation", T + "Convolution.h: Kernel1d")],
     """Random sampling, shape, data and kernel; compared with the explicit list of indices and direct sums under
     AddressSanitizer. Non-trivial: several samples.""",
     ["Steps are positive."])

prop("C21", "Median filtering gives the median of each extrapolated window",
     """The median filter yields, at each position, the median of the input over the window around it, the input being
     extrapolated as requested: the middle value for an odd number of pixels, the mean of the two middle ones for an even
     number. Border and inner pixels obey the same definition. The result does not depend on the calling form, nor on
     earlier uses of the filter.""",
     ["inputs", "histories"], "all inputs, windows (even sizes, off-centre origins, larger than the input) and boundary conditions",
     "The test filters one raster with one window; ties, even windows and borders are unsampled.",
     [T + "MedianFilter.h"],
     [("filter", T + "MedianFilter.h: MedianFilter")],
     """Random input with ties, window and condition; compared with sorting the explicit window. Non-trivial: window and
     input of more than one pixel.""")

prop("C22", "Discrete Fourier transforms match their definition and round-trip",
     """A discrete Fourier transform evaluates the defining sum exponentials along every axis, unnormalized in both
     directions, up to rounding: complex, real-to-complex (half spectrum along the first axis) and the inverses, in any
     dimension. Applying a transform then its inverse and normalizing gives the input back. Output shapes and
     normalization factors are those of the definition.""",
     ["inputs"], "all shapes (even, odd, prime and unit lengths), dimensions 1 to 5 fixed or variable, signals",
     "Tests check a round trip of one shape, which a consistent mistake in both directions passes.",
     [T + "Dft.h", T + "DftPlan.h"],
     [("transform types and shapes", T + "Dft.h: RealDft, ComplexDft, inverses"),
      ("plans", T + "DftPlan.h: DftPlan")],
     """Random shape and signal (impulses, random); compared with a naive O(n^2) DFT in long double with a tolerance
     relative to the norm. Non-trivial: more than one element.""",
     ["FFTW itself is trusted."])

prop("C23", "DFT plans share, own and free their buffers correctly in any history",
     """Through any history of construction, inversion, composition, move, assignment, buffer transfer, transform and
     destruction of transform plans, each plan transforms its own input buffer into its own output buffer, and a plan
     composed with or inverted from another one shares the buffers as documented. Every plan and buffer is released
     exactly once, and the transform results stay those of the definition. Plans do not disturb one another.""",
     ["histories"], "all histories over a pool of plans of every transform type and shape",
     "Ownership errors need moves and destructions in a specific order; tests build one plan and its inverse.",
     [T + "DftPlan.h", T + "DftMemory.h", T + "Dft.h", C + "AlignedBuffer.h"],
     [("plan ownership", T + "DftPlan.h: DftPlan"),
      ("memory", T + "DftMemory.h")],
     """Random history over a pool of plans, with a model of the buffers (who shares what, expected values), FFTW plan
     creation and destruction being intercepted, allocations counted, under AddressSanitizer. Non-trivial: more than two
     steps.""",
     ["FFTW itself is trusted."], technique="stateful model-based property testing with allocation interposition")

prop("C24", "FITS files: what is written is what is read",
     """Writing a raster to a FITS file and reading it back gives the same shape and, for each supported element type, the
     same values, special floating point values included; the file is a valid FITS file with this content for an independent
     decoder, and a file written by an independent encoder is read as its content. In a history of writes and reads
     of several files with several handlers, each file keeps its own content. Errors (missing file, existing file, wrong
     dimension) are reported as exceptions and do not prevent later operations.""",
     ["inputs", "histories", "fault_sequences"], "all shapes, dimensions, element types, values (extreme ones) and histories of writes and reads",
     "The test writes and reads one small raster of one type.",
     [I + "Fits.h"],
     [("file access", I + "Fits.h: Fits::read(), write()"),
      ("type codes", I + "Fits.h: type code and image type traits")],
     """Random raster, types, history of operations on real files in a scratch directory; compared with a model, the bytes
     with an independent FITS encoder and decoder. Non-trivial: more than one element, or several steps.""",
     ["CFITSIO itself is trusted."])


prop("C25", "Program options are parsed as declared, whatever the command line form",
     """For any set of declared positional, named and flag options and any valid command line, each option has the value
     given on the line, or its default, or is unset, whatever the order of the arguments, the long, short, joined or
     separate forms, and the way the line is provided (main-like, vector of strings, single string), the program name
     being skipped. Flags take no value, and positional options are assigned in declaration order. Unknown options,
     missing, malformed or repeated values, excess arguments and type mismatches raise errors. Custom value semantics
     (required, implicit and default values, bound variables, notifications) apply whatever the line, be it empty.
     Copies of a set of options are independent.""",
     ["inputs", "histories"], "all sets of declarations, command lines and calling forms",
     "Tests parse a dozen short lines with one fixed set of options.",
     [U + "ProgramOptions.h"],
     [("declarations", U + "ProgramOptions.h: positional(), named(), flag()"),
      ("parsing", U + "ProgramOptions.h: parse()"),
      ("access", U + "ProgramOptions.h: has(), as()")],
     """Random declarations, values and line, derived from the expected values; non-trivial: more than one option is set,
     or the line is invalid.""",
     ["Boost.ProgramOptions is trusted. Values start with no dash; a repeated option over two parsed lines is not tested."])

prop("C26", "Pipeline steps are evaluated at most once, after their prerequisites",
     """In any history of step requests over a directed acyclic pipeline, a request evaluates exactly the steps it depends on
     which were not evaluated yet, each of them once and after all its prerequisites, and returns the value of the
     requested step. A step is reported as evaluated, with its own duration, if and only if its evaluation completed; the
     total duration is the sum over these. A step which fails is not considered as evaluated, can be requested again, and
     resetting makes every step evaluable anew; instances and copies are independent.""",
     ["histories", "fault_sequences"], "all histories of requests, resets, copies and failing steps over a pipeline with chains, "
     "diamonds, multiple roots and every kind of return type",
     "The test runs two request orders on one diamond, without failure, reset or time check.",
     [U + "StepperPipeline.h"],
     [("lazy evaluation", U + "StepperPipeline.h: get(), evaluateGet(), getMultiple()"),
      ("durations", U + "StepperPipeline.h: milliseconds(), evaluated(), reset()")],
     """Random history over 12 steps, injected failures, clock under control; the log of evaluations is checked against the
     dependency graph. Non-trivial: several requests, of which one evaluates something.""",
     technique="stateful model-based property testing with fault injection")

prop("C27", "Chronometers account for every increment, and their statistics are right",
     """In any history of starts, stops, resets and copies, each stop adds an increment which is the time since the last start
     in the chosen unit; the elapsed time is the offset plus the sum of the increments since the last reset. Count, last
     increment, minimum, maximum, mean and standard deviation are those of the list of increments, to floating point
     accuracy, whatever their magnitude. Restarting drops the pending time, and resetting empties the list and stops the
     chronometer.""",
     ["histories", "inputs"], "all histories, units (integral or floating) and durations from nanoseconds to days",
     "Tests sleep for a few milliseconds, and cannot choose durations; long or nearly equal increments are not reached.",
     [U + "Chronometer.h"],
     [("increments", U + "Chronometer.h: start(), stop(), reset()"),
      ("statistics", U + "Chronometer.h: mean(), stdev(), min(), max()")],
     """Random history with a clock under control; compared with a list of durations. Non-trivial: more than one
     increment.""",
     technique="stateful model-based property testing")

prop("C28", "Vectors: special values, predicates, slicing, extension, strides and comparisons",
     """The zero, one and infinity vectors are made of the corresponding limits of their type, and the predicates recognize
     exactly the vectors all of whose coordinates have this value, in any dimension. Slicing keeps the leading
     coordinates and extending appends those of the padding, or zeros. The stride along an axis is the product of the
     preceding lengths, the size of a shape the product of all of them, and vectors are equal if and only if they have
     the same coordinates.""",
     ["inputs"], "all coordinate types, dimensions 0 to 6 fixed or variable, and values (limits included)",
     "Tests only cover construction and a few arithmetic operators.",
     [R + "Vector.h", Y + "TypeUtils.h"],
     [("special vectors and predicates", R + "Vector.h: zero(), one(), inf(), isZero(), isOne(), isInf()"),
      ("slice and extend", R + "Vector.h: slice(), extend()"),
      ("strides", R + "Vector.h: shapeStride(), shapeSize()")],
     """Random coordinates, mostly constant up to one of them; compared with a standard vector. Non-trivial: dimension
     greater than one.""")

prop("C29", "Numeric limits, floor, clamp, sequence utilities, segments and errors",
     """Rounding down to an integer agrees with the mathematical floor for any finite real in range, and clamping returns the
     nearest value of the interval. The limits of each supported type are those of the language, by component for
     complexes. Tuple and sequence utilities call the function exactly once per element, in order, by reference, and
     gather the results in the right type; segments have as many indices as stated; error messages hold the prefix, the
     message and the appended lines.""",
     ["inputs"], "all values (negative, integral, adjacent to integers), element types, tuples, sequences and messages",
     "Tests cover one tuple, and check limits against each other only.",
     [Y + "TypeUtils.h", Y + "SeqUtils.h", Y + "Segment.h", Y + "Exceptions.h"],
     [("floor and clamp", Y + "TypeUtils.h: floor(), clamp()"),
      ("limits", Y + "TypeUtils.h: Limits, TypeTraits"),
      ("sequences", Y + "SeqUtils.h"),
      ("errors", Y + "Exceptions.h")],
     """Random values, compared with the standard library or definitions. Non-trivial: negative or clamped values, non-empty
     sequences.""")

prop("C30", "All the pixel looping strategies compute the same sum",
     """For any raster side and content, each looping strategy of the benchmark leaves in the output raster the sum of the two
     input rasters at each pixel, and leaves the inputs and shapes alone. This holds for any sequence of strategies.
     Each call reports, and adds to the chronometer, one non-negative duration.""",
     ["inputs", "histories"], "all sides (null one included), contents and sequences of strategies",
     "Tests run each strategy once on a fresh raster of side 4, which zero-filled or stale outputs could fool.",
     [U + "IterationBenchmark.h", "LitlRun/src/lib/IterationBenchmark.cpp"],
     [("strategies", "LitlRun/src/lib/IterationBenchmark.cpp")],
     """Random side, content and sequence of strategies, the output being scrambled in between; compared with a loop over
     the values. Non-trivial: side greater than one.""")

prop("C31", "Operations do not depend on where their operands are stored",
     """Whatever holds the elements of a raster (a standard vector or array, a valarray, aligned memory owned or shared, a raw
     pointer at any address, a contiguous section or a line of a larger raster, a constant view), every operation on it
     (properties, statistics, views, extrapolation, interpolation, correlation, median filter, separable filter,
     arithmetic, comparison, printing, filling, sorting, noise) gives the values it gives for a raster which owns its
     elements in a vector. It reads or writes only the elements of its operands: nothing before, after or between
     them.""",
     ["inputs", "configurations"], "all shapes, contents, storages and addresses, for read-only and writing operations",
     "Tests run nearly all operations on the default holder, so that holder-specific assumptions (alignment, ownership, "
     "stride, slack memory) are not exercised, nor are out-of-bounds accesses noticed.",
     [C + "Holders.h", C + "AlignedBuffer.h", C + "DataContainer.h", R + "Raster.h"],
     [("holders", C + "Holders.h: StdHolder, DataContainerHolder"),
      ("aligned memory", C + "AlignedBuffer.h"),
      ("views", R + "Raster.h: section(), subraster(), PtrRaster")],
     """Random shape, content, storage and operation, over memory surrounded by poisoned bytes, and compared with the
     same operation on a vector raster. Non-trivial: storage other than the vector, several elements.""",
     technique="differential property testing with guarded memory")

prop("C32", "Transforms agree with one another and have the symmetries of their definition",
     """Correlation computed as a product in the Fourier domain is that computed in the spatial domain with periodic
     extrapolation, and separable filtering is filtering with the line kernels one after the other and with the full
     kernel. Translating, flipping or swapping the axes of the input (and kernel) of a filter does so to its output;
     linear filters are linear, and median filters commute with increasing functions. Filtering a region gives the
     region of the filtered raster, and interpolating at a constant subpixel offset is correlating with the weights of
     the interpolation.""",
     ["inputs"], "all shapes, kernels, origins, offsets and contents, in dimension 1 to 3",
     "Each transform is tested alone on one kernel and one raster; conventions (origin, direction of the axes, scaling) "
     "which disagree, or break a symmetry for some sizes only, pass.",
     [T + "Convolution.h", T + "Kernel.h", T + "SeparableKernel.h", T + "MedianFilter.h", T + "Interpolation.h", T + "Dft.h"],
     [("spatial filters", T + "Kernel.h, Convolution.h, MedianFilter.h"),
      ("separable filters", T + "SeparableKernel.h, LineKernel.h"),
      ("spectral filters", T + "Dft.h, DftPlan.h, DftMemory.h"),
      ("interpolation", T + "Interpolation.h, InterpolationMethods.h")],
     """Random input and relation, with integral values where the relation is exact; the two sides are computed by the
     library. Non-trivial: several pixels, and a kernel of several values.""",
     technique="metamorphic and differential property testing")

prop("C33", "Concurrent reads, and concurrent writes to distinct objects, are safe",
     """For any schedule of threads which read the same rasters, views, kernels, boxes, balls and interpolators, and which
     write only to objects of their own or to distinct parts of a raster, each thread gets what it would get alone, and
     there is no data race. This holds from the very first use of each operation, hence no hidden state is shared,
     neither between distinct objects nor by the reading of one. Distinct Fourier plans may be executed
     concurrently once created.""",
     ["schedules", "inputs"], "all assignments of operations to two to four threads, and all inputs of these operations",
     "Tests are single-threaded.",
     [C + "DataContainer.h", R + "Raster.h", R + "SubrasterIterator.h", T + "Kernel.h", T + "MedianFilter.h", T + "Dft.h",
      T + "Interpolation.h"],
     [("constant access", R + "Raster.h, " + C + "DataContainer.h"),
      ("filters and views", T + "Kernel.h, MedianFilter.h, Interpolation.h"),
      ("plans", T + "DftPlan.h: transform()")],
     """Random operations over shared objects in two to four threads started together, built with the thread sanitizer, which
     orders the accesses whatever the schedule; compared with the sequential results. Non-trivial: several pixels.""",
     ["The Fourier plans are created sequentially, as FFTW requires."],
     technique="property-based testing of generated schedules with race detection")


prop("C34", "Rasters and views stay consistent over any history of operations",
     """In any sequence of constructions, copies, moves, assignments (to itself too), swaps, destructions, sections, slices
     and views of other rasters, fillings, arithmetic in place or not, element and region accesses, each raster has the
     shape and values which the operations say, at the location where it was: a copy of an owning raster is deep, a moved
     raster keeps its memory, and hence its views, a view shows the current values of the raster which it was taken from
     and writes to it. No operation changes another raster than its targets, except through shared memory. Scalars may be
     elements of the rasters.""",
     ["histories", "inputs"],
     "all sequences of operations over a pool of rasters of every data holder (vector, valarray, aligned memory, array, "
     "pointer), dimension 1 to 3 or variable, wrapping integers and real numbers",
     "Tests check one operation on fresh objects; stale shapes, shallow copies, aliasing or views left behind only show "
     "after several operations.",
     [R + "Raster.h", C + "DataContainer.h", C + "Holders.h", C + "AlignedBuffer.h", C + "Arithmetic.h", R + "Subraster.h"],
     [("ownership", C + "Holders.h, " + C + "AlignedBuffer.h: copy, move and assignment"),
      ("views", R + "Raster.h: section(), slice(), subraster()"),
      ("operators", C + "Arithmetic.h, " + C + "DataContainer.h")],
     """Random program over up to a dozen rasters; after each step, all of them are compared with a model made of memory
     blocks and views (shape, location, values, disjointness of the blocks). Non-trivial: at least two rasters alive and two
     modifications.""",
     ["Moved-from rasters are only destroyed or assigned, and views are dropped with the memory which they refer to."],
     technique="stateful model-based property testing")

prop("C35", "Iterators are independent copies over one same sequence, fit for algorithms",
     """The iterators over boxes, balls, subrasters and samplings can be copied at any point of the iteration, the copies
     outliving the original, and each copy goes on independently through the same sequence of elements. Dereferencing
     `it++` gives the element before the increment. Two iterators are equal if and only if they are at the same element,
     and equal the end after the last element only. Standard algorithms therefore see the whole sequence from wherever
     they start, and the iterators which they return can be used further.""",
     ["histories", "inputs"],
     "all interleavings of copies, increments, comparisons and destructions of several iterators over a same region; "
     "all regions, balls, subrasters and samplings",
     "Tests run a single iterator from begin to end in a range-based loop.",
     [R + "BoxIterator.h", R + "BallIterator.h", R + "SubrasterIterator.h", R + "Sampling.h"],
     [("box iterator", R + "BoxIterator.h: Box::Iterator"),
      ("ball iterator", R + "BallIterator.h: BallTraits::Iterator"),
      ("subraster iterator", R + "SubrasterIterator.h: Subraster::Iterator"),
      ("samples iterators", R + "Sampling.h: AxisSampling::Iterator, DataSamples::Iterator")],
     """Random program over a pool of iterators, each being modelled by its rank in an independently computed list of
     elements; then distance, find_if and for_each from wherever they are. Non-trivial: some iterator was copied, several
     moves, more than two elements.""",
     ["The region, ball or subraster outlives its iterators."],
     technique="stateful model-based property testing")

prop("C36", "Rasters of billions of pixels are accessed and viewed beyond 32-bit limits",
     """All the guarantees about access, views and iteration hold for rasters of more than 2^31 or 2^32 pixels: the position
     and index accesses (checked or not, backward or not), the sizes, strides and domain, the sections, slices, subrasters
     and their iterators, the extrapolation from any coordinates, the interpolation, the samplings and line correlation reach
     the very pixels which the row-major order tells, however far they are from the origin, and only them.""",
     ["inputs", "configurations"],
     "all shapes up to 2^35 bytes in dimension 1 to 4 or variable, positions and regions anywhere in it, out-of-bounds "
     "coordinates up to 2^42",
     "Such rasters are too large to be filled in a unit test: a 32-bit offset, stride or width anywhere remains unseen.",
     [R + "Raster.h", R + "Vector.h", R + "Box.h", R + "SubrasterIterator.h", R + "Sampling.h", T + "Interpolation.h",
      T + "InterpolationMethods.h", T + "LineKernel.h"],
     [("index computation", R + "impl/Raster.hpp: Raster::index(), section(), slice()"),
      ("region iteration", R + "SubrasterIterator.h"),
      ("samplings", R + "Sampling.h: DataSamples"),
      ("extrapolation and interpolation", T + "InterpolationMethods.h")],
     """Random huge shape over reserved address space, where only the pixels in use get some memory; random accesses, views
     and filters far from the origin, compared with row-major offsets computed in 64 bits. Non-trivial: several axes and at
     least 2^31 pixels.""")

prop("C37", "Failures raise exceptions and leave no leak and valid objects",
     """When memory is exhausted at any point of a construction, copy, assignment, arithmetic operation, function or filter, the
     operation raises an exception (`std::bad_alloc`) and nothing is leaked nor freed twice; the operands keep their
     values, the target of the assignment keeps its previous content (fixed dimension) and can be used afterwards. Sizes which
     are not representable are reported likewise instead of being truncated. When a user function, a user extrapolation
     method or the copy of a pixel raises an exception, it goes through, without leak and with all the objects being valid
     (each pixel being either updated or not in pixel-wise functions). Wrong arguments raise the documented exceptions, without any
     side effect.""",
     ["fault_sequences", "inputs"],
     "all allocations of all the operations of the pool, all calls of the user function, all shapes and values",
     "Tests have enough memory, and test functions do not throw.",
     [C + "AlignedBuffer.h", C + "Holders.h", C + "DataContainer.h", R + "Raster.h", T + "Kernel.h", T + "MedianFilter.h"],
     [("allocation", C + "AlignedBuffer.h: constructors and assignments"),
      ("holders", C + "Holders.h: StdHolder"),
      ("pixelwise functions", C + "DataContainer.h: generate(), apply()")],
     """Random operation where the k-th allocation is refused (interposed allocators), or the k-th call raises, or an argument
     is wrong; the exception, the operands and the balance of allocations and deallocations are checked, then the operation
     is run again. Non-trivial: a failure has been injected.""",
     ["Copy assignment of `std::valarray` (libstdc++) is not exception safe, and is not failed."],
     technique="property-based testing with fault injection")

prop("C38", "Damaged FITS files and full disks are reported and survived",
     """Reading a FITS file which is truncated, is not a FITS file, or has a header which does not match its data, another
     dimension or an unknown type raises an exception; when the header and data are consistent, what they hold is what is
     read, whatever follows. Writing where there is no room, or no possible file, raises an exception. Whatever the failure
     (exhausted memory for a huge announced size included), no file is left open, and the same handler is able to work as
     soon as the cause is removed: it reads the repaired file, writes once there is room, and nothing of the failed operation
     is left in the result of the next ones.""",
     ["fault_sequences", "inputs"],
     "all damages (truncation at any byte, bytes of header or data, announced lengths, dimensions and types), all quotas, "
     "shapes, element types",
     "Tests read one file, which they have just written, on a disk which is not full.",
     [I + "Fits.h"],
     [("file access", I + "Fits.h: Fits::read(), write()"),
      ("errors", I + "Fits.h: status code and file pointer of the handler")],
     """Valid file from an independent encoder, then random damage, read several times, repaired, and read; or random limit
     of the size of the files, under which a raster is written, and then written without limit. The outcome is known from
     the damage; open descriptors are counted. Non-trivial: the file is damaged, or the limit is lower than the
     size of the file.""",
     ["CFITSIO itself is trusted; it does not report the loss of the contents of the last buffer of the stream (at most 4096 "
      "bytes) when the disk gets full at the very end, which is not considered as a failure of the library."],
     technique="property-based testing with fault injection")


def main():
    with open(os.path.join(HERE, "harness", "config.json")) as f:
        conf = json.load(f)
    claimed = sorted({os.path.basename(x)[:3] for x in glob.glob(os.path.join(HERE, "harness", "C[0-9][0-9]*.cpp"))})
    checks = []
    rules = {}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            for path in p["files"]:
                assert os.path.exists(os.path.join("/repo", path)), path
            f.write(json.dumps({
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                },
            }) + "\n")
    for p in P:
        if p["id"] not in claimed:
            continue
        rules[p["id"]] = {"rule": p["rule"], "assumptions": p["assumptions"]}
        trust = " ".join(p["assumptions"])
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 run.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": (p["note"] + " " if p["note"] else "") +
            "Generated cases with shrinking and replay; no absence proof. The oracle is independent of the library; "
            "AddressSanitizer and UBSan checks are on." + (" " + trust if trust else ""),
        })
    with open(os.path.join(HERE, "harness", "rules.json"), "w") as f:
        json.dump(rules, f, indent=1)
        f.write("\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 run.py --setup",
        "checks": checks,
        "not_applicable": [
            {"property": p["id"], "reason": "no check yet"} for p in P if p["id"] not in claimed
        ],
        "notes": "No hooks: the harnesses include /repo's headers and compile /repo's sources directly.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
