#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the texts)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=state or [], observe_at=observe, hook_needed=None)))

p("P01", "Material tensor algebra is exact (invert, rotate, definiteness, frame)",
  "Inverting a symmetric/Hermitian 3x3 material tensor yields its true matrix inverse, rotating it by a matrix R yields R A R^T, and the frame built around an interface normal is a proper orthonormal frame whose first axis is that normal. A tensor is accepted as positive definite exactly when all its eigenvalues are positive, and multiplying a field vector by a tensor is the Hermitian matrix-vector product.",
  ["inputs", "configurations"], "all real/complex tensor entries and all interface normals, in builds with real, inversion-symmetric and Hermitian-epsilon tensors",
  "The check scripts use a few isotropic or mildly anisotropic materials and compare band frequencies to 1e-3; a wrong sign in one off-diagonal or imaginary part of a cofactor is invisible there, and the claim is an identity over all tensors.",
  ["src/maxwell/maxwell_eps.c", "src/maxwell/maxwell_op.c"],
  [("maxwell_sym_matrix_invert / _rotate / _positive_definite", "src/maxwell/maxwell_eps.c"), ("maxwell_rotation_matrix", "src/maxwell/maxwell_eps.c"), ("assign_symmatrix_vector", "src/maxwell/maxwell_op.c")],
  ["band frequencies of anisotropic structures", "epsilon tensor output"])

p("P02", "Sub-pixel averaging gives the anisotropic (Kottke) effective tensor",
  "At every grid point the stored inverse material tensor equals the inverse of the point material when the voxel is homogeneous, the mean tensor supplied by the geometry when it is analyzable, and otherwise the interface-aligned average (harmonic mean along the interface normal, arithmetic mean across it) of the materials sampled over the voxel mesh. A uniform voxel is therefore reproduced exactly, and the result is symmetric (or Hermitian) and independent of which of two equal materials is listed first.",
  ["inputs", "configurations"], "every material function, grid size, mesh size, lattice and voxel, in every scalar/tensor build",
  "Tests compute a few structures at one resolution and tolerate 1e-3 changes of the frequencies; most averaging errors are resolution-dependent and stay inside that tolerance.",
  ["src/maxwell/maxwell_eps.c", "mpb/epsilon.c", "mpb/medium.c"],
  [("set_maxwell_dielectric, set_maxwell_mu", "src/maxwell/maxwell_eps.c"), ("tau averaging and interface detection", "src/maxwell/maxwell_eps.c"), ("mean_epsilon_func", "mpb/epsilon.c"), ("get_epsilon, get_epsilon_tensor", "mpb/epsilon.c")],
  ["epsilon.h5 output", "get-epsilon statistics", "band frequencies"])

p("P03", "Each k+G gets its exact vector, length and right-handed transverse frame",
  "For every Bloch vector and every grid frequency, the tabulated wavevector is k+G for the aliased integer frequency of that grid point, its stored magnitude is its length, and its two stored transverse vectors are unit, mutually orthogonal and orthogonal to k+G, forming a right-handed frame. When k+G is zero the frame is still orthonormal and the magnitude is zero, and a Bloch vector that breaks a requested mirror parity switches that parity off.",
  ["inputs", "configurations"], "all k vectors, reciprocal lattices, grid sizes and frequencies",
  "Tests use a few k points on square, triangular, fcc and diamond lattices and only see gauge-invariant frequencies.",
  ["src/maxwell/maxwell.c"],
  [("update_maxwell_data_k", "src/maxwell/maxwell.c"), ("set_maxwell_data_parity", "src/maxwell/maxwell.c")],
  ["planewave initialisation", "field output", "parity of bands"])

p("P04", "Transverse projections and curl products are exact adjoint pairs",
  "Converting a field between the two-component transverse basis and Cartesian components is exact: expanding then projecting is the identity, the result is always divergence-free, and the curl applied in either basis equals (k+G) x field. The projection used on the way back is the adjoint of the expansion, so the eigen-operator built from them is Hermitian and positive semidefinite for every Hermitian positive material tensor.",
  ["inputs", "configurations"], "all field amplitudes, bands, wavevectors and material tensors",
  "maxwell_test samples a handful of random operator applications at one size; the adjointness and index pairing must hold for every band, slice and grid.",
  ["src/maxwell/maxwell_op.c", "src/maxwell/maxwell_pre.c"],
  [("assign_t2c, assign_cross_t2c, assign_cross_c2t, project_c2t", "src/maxwell/maxwell_op.c"), ("maxwell_compute_*", "src/maxwell/maxwell_op.c"), ("maxwell_operator, maxwell_muinv_operator, maxwell_target_operator", "src/maxwell/maxwell_op.c")],
  ["eigenfrequencies", "divergence-free fields"])

p("P05", "Group velocity is the exact k-derivative of the eigen-operator",
  "The reported group velocity in a direction is the derivative of the band frequency along that direction: the operator applied is the directional k-derivative of the Maxwell operator and the result is divided by the frequency (zero for zero-frequency bands). Computing a group velocity leaves the solved eigenvectors and the solver's band-block configuration unchanged, so asking again gives the same answer.",
  ["inputs", "histories", "configurations"], "all directions, bands, block sizes, materials (with and without mu) and sequences of queries",
  "Tests compare a few group velocities in structures without magnetic materials and never query twice with magnetic materials.",
  ["mpb/mpb.c", "src/maxwell/maxwell_op.c"],
  [("compute_group_velocity_component, compute_1_group_velocity_component", "mpb/mpb.c"), ("maxwell_ucross_op", "src/maxwell/maxwell_op.c")],
  ["velocity: output lines"])

p("P06", "Preconditioners are positive, band-wise diagonal and never divide by zero",
  "Each preconditioner multiplies or transforms every plane-wave component of every band independently of the others by a strictly positive approximate inverse of the operator, guarded against zero denominators. It never mixes bands and never changes anything but its output block.",
  ["inputs", "configurations"], "all trial blocks, eigenvalue estimates, k points (including k=0) and grid sizes",
  "Convergence tests still pass with a poorer or slightly asymmetric preconditioner.",
  ["src/maxwell/maxwell_pre.c"],
  [("maxwell_simple_precondition, maxwell_preconditioner, maxwell_preconditioner2, maxwell_target_preconditioner*", "src/maxwell/maxwell_pre.c")],
  ["iteration counts", "convergence"])

p("P07", "Mirror-parity constraints are orthogonal projections; parities lie in [-1,1]",
  "Constraining fields to an even or odd mirror parity is an orthogonal projection onto fields with exactly that parity: applying it twice equals applying it once, and a field already of that parity is unchanged. The parity reported for a band is its expectation value of the mirror operation, hence +1/-1 for fields of definite parity and always between -1 and 1.",
  ["inputs", "configurations"], "all fields, grid sizes (even and odd), bands and parity combinations",
  "Tests use two or three even grid sizes and never a band of mixed parity.",
  ["src/maxwell/maxwell_constraints.c"],
  [("maxwell_zparity_constraint, maxwell_yparity_constraint", "src/maxwell/maxwell_constraints.c"), ("maxwell_zparity, maxwell_yparity", "src/maxwell/maxwell_constraints.c")],
  ["zparity:/yparity: output lines", "run-te, run-tm, run-zeven ..."])

p("P08", "At k=0 the zero-frequency constant bands are handled exactly",
  "At the Gamma point the number of constant zero-frequency bands is the number of uniform transverse fields allowed by the requested parity, those bands are set to exactly such uniform fields, and every other band is kept orthogonal to them by removing precisely its zero-wavevector component.",
  ["inputs", "configurations"], "all parities, dimensions, band counts and fields",
  "Gamma-point tests check a few frequencies with one band count and parity.",
  ["src/maxwell/maxwell_constraints.c", "mpb/mpb.c"],
  [("maxwell_zero_k_num_const_bands, maxwell_zero_k_set_const_bands, maxwell_zero_k_constraint", "src/maxwell/maxwell_constraints.c")],
  ["bands 1-2 at k=0"])

p("P09", "Dense eigenvector-block algebra computes exactly what it documents",
  "Every block-vector and small-matrix operation (copy, slice, resize, linear combination, adjoint products, traces, diagonal products, symmetrization, inversion, multiplication, scaling by a diagonal) produces its documented mathematical result for every shape, slice offset and leading dimension, for real and complex scalars, and touches no element outside its documented output. Resizing in place with data preserved keeps every surviving entry.",
  ["inputs", "configurations"], "all shapes, offsets, scalars and entries",
  "blastest exercises a few fixed shapes with full blocks; slices, partial blocks and resizing happen only with band blocks and k=0.",
  ["src/matrices/evectmatrix.c", "src/matrices/sqmatrix.c", "src/matrices/matrices.c"],
  [("evectmatrix_*", "src/matrices/evectmatrix.c"), ("sqmatrix_*", "src/matrices/sqmatrix.c"), ("create/destroy/resize", "src/matrices/matrices.c")],
  ["eigenvectors", "dot-eigenvectors", "all solver results"])

p("P10", "Row-major linear algebra requests reach BLAS/LAPACK as the same operation",
  "Every wrapper that forwards a row-major matrix operation to a column-major BLAS/LAPACK routine asks for exactly the mathematically equivalent operation: the transposed or conjugated operand flags, triangle, dimensions, leading dimensions, strides and scalar factors all correspond, and results and error codes are returned unchanged.",
  ["inputs", "configurations"], "all flags, shapes, leading dimensions and scalars, in real and complex builds",
  "blastest covers square products with one flag combination each.",
  ["src/matrices/blasglue.c"],
  [("blasglue_*, lapackglue_*", "src/matrices/blasglue.c")],
  ["all solver results"])

p("P11", "Eigensolver steps use the true energy gradient and keep all constraints",
  "In each minimisation step the value and slope used for the line search are the trace energy along the rotated direction and its exact derivative, and the analytic trial step is the minimiser of its two-harmonic fit. Every registered constraint is applied to the trial vectors, in order of registration, and the line search reports exactly the function it was given.",
  ["inputs", "histories"], "all trial blocks, search directions and constraint lists",
  "An inexact slope only slows convergence, so the fixed-point frequency tests stay green.",
  ["src/matrices/eigensolver.c", "src/matrices/eigensolver_utils.c", "src/matrices/linmin.c"],
  [("trace_func", "src/matrices/eigensolver.c"), ("evectconstraint_chain_func", "src/matrices/eigensolver_utils.c"), ("linmin", "src/matrices/linmin.c")],
  ["convergence trace", "frequencies"])

p("P12", "Field energy, squared field and normalisation are exact sums over the cell",
  "The energy density at every grid point is the Hermitian form of field and dual field there, the total energy is its cell average times the cell volume with every physical point counted exactly once (also when only half the points are stored), component fractions add to one, and energy in a dielectric range or object list sums exactly the points inside. Phase fixing multiplies a field and its eigenvector by one unit-modulus factor, the divergence is i (k+G).F in Fourier space, and integrals of a user function sum it over every physical point.",
  ["inputs", "configurations"], "all fields, tensors, grid sizes (even and odd) and object lists",
  "Tests read a few normalised energies on one even grid; the half-storage weights differ only on the boundary planes.",
  ["mpb/fields.c"],
  [("compute_field_energy, compute_field_squared, compute_energy_in_dielectric, compute_energy_in_object_list, fix_field_phase", "mpb/fields.c")],
  ["D-energy-components output", "field energy files"])

p("P13", "Fields evaluated at a point are periodic linear interpolation of the grid",
  "The value of a stored field, energy or material tensor at any point is the trilinear interpolation of the surrounding grid values with non-negative weights summing to one, exact at grid points and periodic under lattice translations, with the Bloch phase applied to vector and complex fields.",
  ["inputs", "configurations"], "all points (inside or outside the unit cell), grids and fields",
  "Tests evaluate a handful of points inside the cell.",
  ["mpb/fields.c", "mpb/epsilon_file.c"],
  [("get_*_point, interp", "mpb/fields.c"), ("linear_interpolate", "mpb/epsilon_file.c")],
  ["get-field-point, get-epsilon-point, get-energy-point"])

p("P14", "Field output writes every point once with the right Bloch phase",
  "A field written to file is the computed Bloch field multiplied by exp(i k.r) at each grid point, each requested component and each of its real and imaginary parts going to its own dataset, and nothing outside the field array is read or written. In the inversion-symmetric build the missing half of the cell is reconstructed as the phase-corrected complex conjugate of the stored half, so every point of the cell is written exactly once.",
  ["inputs", "configurations"], "all k vectors, grid sizes (odd and even), field kinds and components",
  "No test compares an output file at a nonzero k or with an odd grid.",
  ["src/matrixio/fieldio.c", "src/maxwell/maxwell_op.c", "mpb/fields.c", "src/maxwell/imaxwell.h"],
  [("fieldio_write_complex_field", "src/matrixio/fieldio.c"), ("*_otherhalf", "src/maxwell/maxwell_op.c"), ("output_field_to_file", "mpb/fields.c")],
  ["*.h5 field files"])

p("P15", "Saved eigenvectors, datasets and material grids read back unchanged",
  "Writing an eigenvector set, a strided real array or a material grid and reading it back returns every value in its place: the writer and reader agree on dataset dimensions, hyperslab offsets and the packing of strided data. Material-grid values set from a vector of unknowns are the values later returned, in the same order, and loading a grid file of the same size reproduces it.",
  ["inputs", "histories"], "all sizes, strides, band counts and values",
  "Tests save and load once with one size.",
  ["src/matrixio/evectmatrixio.c", "src/matrixio/matrixio.c", "mpb/material_grid.c"],
  [("evectmatrixio_writeall_raw / readall_raw", "src/matrixio/evectmatrixio.c"), ("matrixio_write_real_data / read_real_data", "src/matrixio/matrixio.c"), ("material_grids_set / get, load_material_grid", "mpb/material_grid.c")],
  ["saved .h5 files"])

p("P16", "mpb-data resampling is periodic interpolation with Bloch phase per cell",
  "Every output value of the data post-processor is the periodic trilinear interpolation (or the nearest neighbour, when requested) of the input data at the mapped point, multiplied for complex data by the Bloch phase of the unit cell each contributing sample lies in; transposition exchanges exactly the first two axes. A uniform input therefore maps to the same uniform output, and the identity map returns the input.",
  ["inputs"], "all data, sizes, coordinate maps, k vectors and options",
  "mpb-data has no test at all.",
  ["utils/mpb-data.c"],
  [("map_data, add_cmplx_times_phase", "utils/mpb-data.c")],
  ["mpb-data output files"])

p("P17", "Material-grid gradients are exact derivatives of the interpolated material",
  "The weight with which a material-grid unknown enters a frequency or misfit gradient at a point is exactly the derivative of the interpolated (min, product or mean of overlapping grids) material value at that point with respect to that unknown, scaled by the material range. Objective and constraint functions of the band-gap optimisers return gradients that match the values they return.",
  ["inputs"], "all grids, sizes, points, overlap kinds and field amplitudes",
  "No test evaluates a material-grid gradient.",
  ["mpb/material_grid.c", "mpb/material_grid_opt.c", "mpb/epsilon_file.c"],
  [("add_interpolate_weights, material_grids_addgradient_point", "mpb/material_grid.c"), ("maxgap_func, band_constraint, mindiff_func", "mpb/material_grid_opt.c")],
  ["print-material-grids-gradient", "optimised grids"])

p("P18", "Symmetry overlaps use the transformed field with its Bloch phase",
  "The overlap of a mode with its image under {W|w} is the cell integral of the conjugate dual field at r times the Cartesian-transformed field at W^-1 (r - w), including the Bloch phase difference, with the determinant included for pseudovector fields. For the identity operation it is exactly the field energy of the mode.",
  ["inputs"], "all operations {W|w} with |det W|=1, k vectors, lattices and fields",
  "Tests evaluate a few operations on one high-symmetry structure.",
  ["mpb/transform.c"],
  [("transformed_overlap", "mpb/transform.c")],
  ["compute-symmetries output"])

p("P19", "Block-wise band solving removes already solved bands exactly",
  "When bands are solved in blocks, each new block is kept exactly orthogonal (in the metric of the magnetic response) to all previously solved bands at that k point, previously solved bands are not altered, and returned eigenvectors and frequencies of each block land at that block's band indices. Saving, loading, scaling and taking inner products of eigenvectors address exactly the requested bands.",
  ["inputs", "histories", "configurations"], "all band counts, block sizes, fields and sequences of runs",
  "Tests use block sizes that divide the band count or a single block and check only frequencies.",
  ["mpb/mpb.c", "mpb/matrix-smob.c"],
  [("deflation_constraint, solve_kpoint", "mpb/mpb.c"), ("dot_eigenvectors, set_eigenvectors, scale_eigenvector", "mpb/matrix-smob.c")],
  ["freqs:", "get-eigenvectors"])

p("P20", "Work division covers each process and grid point exactly once",
  "Splitting processes into groups, and grid points and bands among processes, covers every process, point and band exactly once with sizes differing by at most one, and the serial build accepts exactly one group. A serial run therefore sees the whole grid.",
  ["inputs", "configurations"], "all process counts, group counts and grid sizes",
  "Tests run serially.",
  ["src/util/mpi_utils.c", "src/maxwell/maxwell.c"],
  [("divide_parallel_processes", "src/util/mpi_utils.c"), ("create_maxwell_data", "src/maxwell/maxwell.c")],
  ["mpb-split output", "group-parallel runs"])

p("P21", "The iterative solver converges to the lowest eigenpairs within tolerance",
  "For every structure and k point the solver terminates, and the frequencies it reports are the lowest eigenvalues of the discretised Maxwell operator to within the requested tolerance.",
  ["inputs", "histories"], "all structures, k points, tolerances and random starting fields",
  "Convergence is a whole-history floating-point property; tests sample a few structures.",
  ["src/matrices/eigensolver.c", "src/matrices/eigensolver_davidson.c"],
  [("eigensolver, eigensolver_davidson", "src/matrices/eigensolver.c")], ["freqs:"])

p("P22", "Results do not depend on the number of MPI processes",
  "The frequencies, fields and files produced by a parallel run agree with the serial run for every number of processes.",
  ["schedules", "configurations"], "all process counts and message schedules",
  "Tests run the MPI build with one or two processes.",
  ["src/maxwell/maxwell_constraints.c", "src/matrixio/evectmatrixio.c", "src/util/mpi_utils.c"],
  [("mpi_allreduce, transposed layouts", "src/util/mpi_utils.h")], ["freqs:"])

with open("/verif/properties.jsonl", "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
