import json
S="crates/minikalman/src/"
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
KS=[("estimate","state vector x and covariance P held by the filter","kalman/regular.rs: RegularKalman::{x,P}")]
L=[]
L.append(P("F01","Linear prediction computes x' = A x and P' = A P Aᵀ + Q",
"For a linear filter with any transition matrix A, estimate (x, P) with symmetric P, and direct process noise Q, one prediction step leaves exactly x' = A·x and P' = A·P·Aᵀ + Q (up to rounding of the number type) as the new estimate. This holds for every number of states, every storage kind, whatever was computed before, and every repetition of the step.",
["inputs","histories","configurations"],"every A, x, P, Q of every dimension, in every storage kind and after every earlier history",
"the tests predict a handful of physical models; an error in one index, an off-diagonal or a shape they do not use passes",
["kalman/regular.rs","matrix/traits.rs","kalman/filter_trait.rs"],
[("predict","kalman/regular.rs: RegularKalman::predict / predict_x / predict_P"),("matrix products","matrix/traits.rs: mult, mult_rowvector, mult_transb, add_inplace_b, copy_to")],KS,"state_vector(), estimate_covariance() after predict()"))
L.append(P("F02","Tuned prediction scales the propagated covariance by 1/λ² only",
"A prediction tuned by a factor λ ≠ 0 leaves x' = A·x and P' = (1/λ²)·A·P·Aᵀ + Q: the factor scales the propagated covariance and neither the state nor the process noise. With λ = 1 it equals the plain prediction, and the factor does not linger into later predictions.",
["inputs","histories","configurations"],"every λ ≠ 0 (below, at and above one, negative), A, x, P, Q, dimension, and sequence of tuned and plain predictions",
"tests tune with one or two factors and mostly Q = 0 or λ near 1, where scaling Q too, or using λ instead of λ², shows little",
["kalman/regular.rs","matrix/traits.rs"],
[("predict_tuned","kalman/regular.rs: RegularKalman::predict_tuned / predict_P_tuned"),("scaled product","matrix/traits.rs: multscale_transb")],KS))
L.append(P("F03","Applying a control input adds B u to the state and B Q_u Bᵀ to P",
"Applying a control input to a filter's estimate leaves x' = x + B·u and P' = P + B·Q_u·Bᵀ, where Q_u is the control's own process noise, for every number of states and controls. A control with zero inputs changes nothing, and repeated application adds the same contribution each time.",
["inputs","histories","configurations"],"every B, u, Q_u, x, P, number of states and controls (including none), and repetition",
"tests apply one control of one shape once; non-square B, off-diagonal Q_u and repeated use are not covered",
["controls.rs","kalman/regular.rs","matrix/traits.rs"],
[("apply_control","controls.rs: Control::apply_control / apply_to"),("accumulating products","matrix/traits.rs: multadd_rowvector, multadd_transb")],KS))
L.append(P("F04","Linear correction computes the Kalman measurement update",
"For symmetric P and R and a positive definite innovation covariance S = H·P·Hᵀ + R, correcting a linear filter with a measurement z leaves x' = x + K·(z − H·x) and P' = P − K·H·P with K = P·Hᵀ·S⁻¹, all from the estimate before the correction (up to rounding). This holds for every number of states and measurements (more or fewer measurements than states, correlated noise) and every storage kind.",
["inputs","histories","configurations"],"every x, P, H, R, z of every shape with positive definite S, in every storage kind and after every earlier history",
"tests use scalar or diagonal measurements with hand-picked numbers; a wrong cross term, a stale temporary or a shape-dependent index needs M > 1, dense P and dense R",
["observations/regular.rs","kalman/regular.rs","matrix/traits.rs"],
[("correct","observations/regular.rs: RegularObservation::correct / update_with_innovation"),("inversion of S","matrix/traits.rs: cholesky_decompose_lower, invert_l_cholesky")],
KS+[("work buffers","y, S, K and four temporaries owned by the measurement","observations/regular.rs: RegularObservation")]))
L.append(P("F05","Extended prediction uses the user's function and the Jacobian",
"Predicting an extended filter calls the supplied transition function exactly once, giving it the state before the step, and leaves x' = f(x) and P' = J·P·Jᵀ + Q with J the current Jacobian; the tuned variant leaves (1/λ²)·J·P·Jᵀ + Q. The function's output reaches the state unchanged whatever the output buffer contained before, and the Jacobian does not influence the state.",
["inputs","histories","configurations"],"every f, J, x, P, Q, λ ≠ 0, dimension and history of earlier steps",
"tests run linear functions through the extended filter, where f(x) = J·x hides a prediction that uses J for the state or passes the wrong vector to f",
["kalman/extended.rs"],
[("predict_nonlinear","kalman/extended.rs: ExtendedKalman::predict_nonlinear / predict_tuned_nonlinear / predict_P / predict_P_tuned")],
[("estimate","x and P of the extended filter","kalman/extended.rs: ExtendedKalman::{x,P}")]))
L.append(P("F06","Extended correction uses z − h(x) with the Jacobian's gain",
"Correcting an extended filter calls the supplied observation function exactly once with the state before the correction and leaves x' = x + K·(z − h(x)) and P' = P − K·H·P with K = P·Hᵀ·S⁻¹, S = H·P·Hᵀ + R, where H is the current Jacobian, for symmetric P, R and positive definite S. The Jacobian does not influence the innovation, and the function's output is used whatever its buffer contained before.",
["inputs","histories","configurations"],"every h, H, x, P, R, z and shape with positive definite S, and every earlier history",
"tests use h(x) = H·x or one scalar measurement, hiding a correction that mixes the two up or calls h at the wrong moment",
["observations/extended.rs","kalman/extended.rs","matrix/traits.rs"],
[("correct_nonlinear","observations/extended.rs: ExtendedObservation::correct_nonlinear / update_with_innovation; kalman/extended.rs: correct_nonlinear")],
[("estimate","x and P of the extended filter","kalman/extended.rs: ExtendedKalman::{x,P}")]))
L.append(P("F07","The covariance stays symmetric, positive and never grows on correction",
"Starting from a symmetric positive semidefinite P with symmetric positive semidefinite process noise and positive definite R, after any sequence of predictions, controls and corrections P is still symmetric and positive semidefinite (up to rounding). A correction never increases the variance along any direction, process noise and controls never decrease it, and P never depends on the values of the state, the control vector or the measurements.",
["histories","inputs"],"every sequence of operations from every admissible start, for linear and extended filters",
"tests check at most a few diagonal entries at the end of one run; loss of symmetry or positivity appears only for some sequences",
["kalman/regular.rs","kalman/extended.rs","controls.rs","observations/regular.rs","observations/extended.rs"],
[("covariance updates","kalman/regular.rs: predict_P, predict_P_tuned; controls.rs: apply_control; observations/*.rs: update_with_innovation")],KS))
L.append(P("F08","Filters keep no hidden memory: only the estimate and the model matter",
"The result of every operation is a function of the current estimate and the current model values alone: it does not depend on how often or in which order operations ran before, on what the temporary buffers contain, or on other filters, controls and measurements in use. A filter loaded with another's estimate and model continues exactly like it, and a change to any model matrix takes effect on the next operation.",
["histories","schedules"],"every history of operations, model changes and interleavings with other filters and measurements, and every content of the temporary buffers",
"each test starts from fresh zeroed buffers and a fixed short call order",
["kalman/regular.rs","kalman/extended.rs","controls.rs","observations/regular.rs","observations/extended.rs"],
[("temporaries","kalman/regular.rs: predicted_x, temp_P; controls.rs: temp_BQ; observations/*.rs: y, S, K, temp_S_inv, temp_HP, temp_PHt, temp_KHP")],
KS+[("temporaries","scratch whose content must not matter","observations/regular.rs: temp_*")]))
L.append(P("F09","Documented sharing of temporary buffers does not change results",
"Temporary buffers that the documentation allows to share memory may do so without changing any result: the inverted innovation covariance with K·H·P or (unless that also shares with P·Hᵀ) with H·P; H·P with P·Hᵀ; P·Hᵀ with K·H·P; and the filter's temporary state matrix with the control's B·Q. Estimates after any sequence of operations are identical to those with separate buffers.",
["configurations","histories","inputs"],"every documented sharing (and allowed combination), every shape, input and sequence of operations",
"no test shares buffers; a reordered statement that keeps a temporary alive longer is invisible with separate buffers",
["observations/regular.rs","observations/extended.rs","controls.rs","kalman/regular.rs","static_macros.rs","buffers/types/temporary_khp_matrix_buffer.rs"],
[("sharing rules","buffers/types/temporary_*.rs and observations/*.rs: documentation of temp_S_inv, temp_HP, temp_PHt, temp_KHP, temp_BQ")]))
L.append(P("F10","A correction whose innovation covariance is not positive definite is ignored",
"When H·P·Hᵀ + R is not positive definite (for instance no uncertainty and no measurement noise, or an entry that is not a number), a correction leaves the state and its covariance exactly as they were: it neither panics nor writes invalid numbers. Later operations, including later corrections with a usable covariance, behave as if the unusable correction had not been made.",
["inputs","fault_sequences","histories"],"every non-positive-definite S (singular or indefinite, at any pivot), every number type, and any sequence of operations around it",
"no test gives the filter an unusable innovation covariance; the decomposition can fail at any pivot, leaving partly written buffers",
["observations/regular.rs","observations/extended.rs","matrix/traits.rs"],
[("positive definiteness test","matrix/traits.rs: cholesky_decompose_lower; observations/*.rs: update_with_innovation")],KS))
L.append(P("F11","All routes to an operation agree",
"Calling an operation through the filter, through the control or measurement object, or through the generic filter traits gives identical results, and reported dimensions match. An extended filter whose functions are f(x) = A·x and h(x) = H·x gives the same estimates as the linear filter over every sequence of operations.",
["inputs","histories","configurations"],"every operation, route, shape, input and sequence of operations",
"tests exercise each route separately with its own numbers and never compare routes",
["kalman/regular.rs","kalman/extended.rs","kalman/filter_trait.rs","controls.rs","observations/regular.rs","observations/extended.rs"],
[("trait implementations","kalman/filter_trait.rs; impl blocks at the end of kalman/*.rs, controls.rs, observations/*.rs"),("duplicated update","observations/regular.rs and observations/extended.rs: update_with_innovation; kalman/regular.rs and kalman/extended.rs: predict_P, predict_P_tuned")]))
L.append(P("F12","Fusing independent measurements is order-independent and equals batch fusion",
"Correcting with two measurements whose noises are independent gives the same estimate in either order, and the same as one correction with the stacked measurement (stacked H and z, block-diagonal R), up to rounding. The same holds for three or more measurements of different sizes and for measurements split into single components.",
["histories","inputs"],"every order and grouping of independent measurements, every H, R, z, x, P",
"tests correct with one measurement object at a time and never compare orders or groupings",
["observations/regular.rs","observations/extended.rs"],
[("correct","observations/regular.rs: correct / update_with_innovation; observations/extended.rs: correct_nonlinear")],KS))
L.append(P("F13","Operations write only the estimate; model values stay as the user set them",
"Prediction, control and correction never change A, Q, B, u, Q_u, H, R or z, and correction and control never touch anything but the estimate of the filter they are applied to. Each accessor of a filter, control or measurement reads and writes exactly the quantity it names, and a value written through an accessor is the one used and read back afterwards.",
["inputs","histories","configurations"],"every operation and accessor, every storage kind, shape and value",
"tests look at the estimate, not at whether inputs survive, and accessors of equal shape (Q, P, A) are rarely told apart",
["kalman/regular.rs","kalman/extended.rs","controls.rs","observations/regular.rs","observations/extended.rs"],
[("accessors","kalman/*.rs, controls.rs, observations/*.rs: *_mut accessors and their trait counterparts")]))
L.append(P("F14","Running filters never allocates and never panics on valid input",
"Once filters, controls and measurements are built, every sequence of operations and accessor calls on valid input (finite values, non-zero λ, correctly sized buffers) completes without panicking and without allocating or freeing heap memory. This holds for every dimension from one upwards and every storage kind, including one-state filters and measurements with more components than states.",
["histories","inputs","configurations"],"every operation sequence, shape and storage kind",
"a test cannot see an allocation or an out-of-bounds access in shapes it does not build; the crate exists to run on targets with no heap",
["kalman/regular.rs","kalman/extended.rs","controls.rs","observations/regular.rs","observations/extended.rs","matrix/traits.rs"],
[("no_std core","lib.rs: #![no_std], no allocation outside builders; matrix/traits.rs: index arithmetic")]))
L.append(P("M01","Matrix products are correct for every shape and leave operands alone",
"For all matrices of compatible shapes, the plain, buffered, matrix-vector, transposed-second-operand, accumulating and scaled products store exactly the product (added to the target for accumulating variants, scaled for the scaled variant) up to rounding, in every target cell. The operands are unchanged and the previous content of a non-accumulating target is irrelevant.",
["inputs","configurations"],"every shape, every operand content, every previous target content",
"tests use two or three fixed small matrices per product",
["matrix/traits.rs"],
[("products","matrix/traits.rs: mult, mult_buffered, mult_rowvector, multadd_rowvector, mult_transb, multadd_transb, multscale_transb")]))
L.append(P("M02","Element-wise sums, differences and copies act on every cell and only there",
"Sum and difference of two matrices, whether stored in a third matrix, in the first operand or in the second, give A + B respectively A − B (never B − A) in every cell, and copying makes the target equal to the source in every cell. The other operand is unchanged, matrices without any cell are accepted, and the target's previous content does not matter unless it is an operand.",
["inputs","configurations"],"every shape including empty, every operand and target content",
"tests use square matrices of one size; a skipped first or last cell or a swapped difference needs other shapes and values",
["matrix/traits.rs"],
[("sums and copies","matrix/traits.rs: sub, add_inplace_a, add_inplace_b, sub_inplace_a, sub_inplace_b, copy_to, copy_from, copy")]))
L.append(P("M03","Element, row and column access follow row-major layout for every shape",
"For every matrix shape, reading or writing the cell at (row, column) addresses the same element as position row·columns + column of the row-major data, through every accessor (matrix, vector, scalar, slice and index). Copying out a row or a column yields exactly that row or column and writes only its elements, writing a cell changes no other cell, and a symmetric write changes exactly the cell and its mirror.",
["inputs","configurations"],"every shape, every row and column, every content",
"tests read cells of one or two square matrices; a wrong stride shows only for non-square shapes or later rows",
["matrix/traits.rs","matrix/row_major.rs","matrix/data.rs"],
[("access","matrix/traits.rs: get, set, get_row_copy, get_column_copy, set_symmetric, get_row, get_col, get_value, set_*; matrix/row_major.rs: get_at, set_at")]))
L.append(P("M04","Fill, identity, scalar and diagonal initialisers set exactly their cells",
"Filling or clearing a matrix sets every cell and nothing outside the matrix; making it an identity, a scalar or a uniform-off-diagonal matrix sets all of its cells accordingly whatever they held; setting the diagonal changes only the diagonal. This holds for every size and also when the underlying buffer is larger than the matrix.",
["inputs","configurations"],"every size, previous content and buffer length",
"tests check one size with exactly sized buffers",
["matrix/traits.rs"],
[("initialisers","matrix/traits.rs: clear, set_all, set_zero, make_identity, make_scalar, make_comatrix, set_diagonal_to_scalar")]))
L.append(P("M05","Cholesky succeeds exactly for positive definite input and factors it",
"For a symmetric matrix, in-place decomposition reports success exactly when the matrix is positive definite, and then the matrix holds a lower triangular L with positive diagonal, zeros above it and L·Lᵀ equal to the input (up to rounding). Neither the outcome nor the factor depends on anything but the input matrix.",
["inputs"],"every symmetric matrix of every size: positive definite, singular, indefinite at any pivot, badly scaled",
"tests decompose a few fixed matrices of one or two sizes and at most one indefinite one",
["matrix/traits.rs"],
[("Cholesky decomposition","matrix/traits.rs: MatrixMut::cholesky_decompose_lower")]))
L.append(P("M06","Inversion from a Cholesky factor yields the symmetric inverse",
"Given the lower triangular Cholesky factor of a positive definite matrix, inversion fills every cell of the target with the matrix's inverse: multiplying it with the matrix gives the identity, it is exactly symmetric, and the factor is unchanged. The target's previous content does not matter.",
["inputs"],"every positive definite matrix of every size, every previous content of the target",
"tests invert a few fixed matrices of small size into zeroed targets",
["matrix/traits.rs"],
[("inversion","matrix/traits.rs: SquareMatrix::invert_l_cholesky")]))
L.append(P("B01","Storage kinds are interchangeable and surplus memory is never touched",
"Arrays, slices, boxed, immutable and wrapped storage, through any of the named buffer types, give identical results for every operation, and data moved into a buffer comes back unchanged and in order when read or taken out again. When the storage is larger than the matrix, elements past its end are never read into a result and never modified.",
["configurations","inputs","histories"],"every storage kind, buffer type, shape, surplus length and operation sequence",
"tests use one storage kind per case and exactly sized buffers",
["matrix/data.rs","matrix/data/matrix_data_array.rs","matrix/data/matrix_data_boxed.rs","matrix/data/matrix_data_mut.rs","matrix/data/matrix_data_ref.rs","matrix/data/matrix_data_row_major.rs","matrix/data/matrix_data_row_major_mut.rs","buffers/types.rs","buffers/macros.rs"],
[("storage types","matrix/data/*.rs"),("buffer types","buffers/types/*.rs, buffers/macros.rs")]))
L.append(P("B02","Buffers of the wrong size are told apart from valid ones",
"With assertions enabled, building any named buffer from memory with fewer elements than its matrix needs is rejected with a panic, memory with enough elements is accepted, and exactly sized storage types reject any other length (also in release builds, unless the no_assert feature is set). With or without assertions, the validity query reports whether the memory is large enough, and length, emptiness and dimension queries report the matrix's size rather than the memory's.",
["configurations","inputs"],"every buffer type, storage kind, dimension and memory length around the required one",
"tests try one too-short length for some of the types in one dimension",
["buffers/types.rs","buffers/macros.rs","matrix/row_major.rs","matrix/data/matrix_data_array.rs","matrix/data/matrix_data_boxed.rs"],
[("size checks","buffers/types/*.rs: From impls; buffers/macros.rs; matrix/row_major.rs: is_valid, len, buffer_len, is_empty")]))
L.append(P("B03","Builders and buffer macros yield correctly sized, initialised buffers",
"For every number of states, controls and measurements, filters, controls and measurements from the builders start with all matrices and vectors zero and of the right shape, buffers from the buffer builder hold the requested (or zero) initial value in every cell, and buffer macros yield exactly as many elements as the corresponding size macro and the matrix need, all holding the given initial value. Objects built separately share no memory.",
["configurations"],"every builder and macro, every dimension and initial value",
"tests build one configuration; swapped dimensions in one buffer only show for a non-square shape",
["buffers/builder.rs","kalman_builder/regular.rs","kalman_builder/extended.rs","static_macros.rs","lib.rs"],
[("builders","buffers/builder.rs, kalman_builder/*.rs"),("macros","static_macros.rs: impl_buffer_*; lib.rs: size_buffer_*")]))
L.append(P("N01","Reciprocal and square root are accurate on every number and back end",
"For every finite non-zero number in range, the reciprocal is the correctly rounded (floating point) or within-one-step (fixed point) value of 1/x, and for every non-negative number the square root is the correctly rounded or within-one-step root, with each of the std and libm back ends and both fixed-point types; the micromath back end stays within its documented approximation error. Results never depend on which other features are enabled, except that std takes precedence over libm and libm over micromath.",
["inputs","configurations"],"every 32-bit pattern of the single-precision and 16.16 fixed-point types, structured patterns of the wider types, every back end",
"tests evaluate one or two numbers per type and back end",
["matrix/data_type.rs"],
[("numeric back ends","matrix/data_type.rs: impl MatrixDataType for f32, f64, I16F16, I32F32")]))
L.append(P("N02","nalgebra views of a matrix show the same elements at the same places",
"With the nalgebra integration enabled, a matrix used as nalgebra storage has the same shape and the same element at every (row, column) as the matrix itself, for every shape. nalgebra computations on the view (transpose, products, rows, columns, iteration, sums) equal the same computation on a native nalgebra matrix with those elements.",
["inputs","configurations"],"every shape and element content",
"the only test checks the shape of one 2×3 matrix; row-major data with column-major strides shows only in element access of non-square shapes",
["matrix/nalgebra_support.rs"],
[("storage implementation","matrix/nalgebra_support.rs: RawStorage for MatrixDataArray")]))
L.append(P("N03","Fixed-point and floating-point filters agree within resolution",
"On values that fit the number format, a filter run in 16.16 or 32.32 fixed point or in single precision follows the same filter run in double precision within the accumulated rounding of the format, over every sequence of predictions, controls and corrections. Values that are exactly representable throughout give exactly equal results in all number types.",
["inputs","histories","configurations"],"every sequence of operations on in-range values, all four provided number types",
"the fixed-point tests compare a few printed digits of one model",
["matrix/data_type.rs","kalman/regular.rs","kalman/extended.rs","controls.rs","observations/regular.rs","observations/extended.rs"],
[("generic arithmetic","matrix/data_type.rs; all generic code over MatrixDataType")]))
L.append(P("N04","Feature flags do not change results and every combination builds",
"Every combination of the crate's feature flags compiles, for the library and for a program using the parts that the combination provides. The results of all operations on a given number type whose square root and reciprocal are provided by the program are identical in every combination and with or without debug assertions.",
["configurations"],"all combinations of the eight feature flags",
"the test suite builds six combinations; code behind cfg attributes in the others is never compiled or run",
["lib.rs","matrix/data_type.rs","matrix/nalgebra_support.rs","matrix/data.rs","matrix/data/matrix_data_boxed.rs"],
[("cfg attributes","all modules: #[cfg(feature = ...)], #[cfg(not(feature = \"no_assert\"))]")]))
with open('/verif/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in L:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    try: jsonschema.validate(p,sch)
    except Exception as e: print(p['id'],str(e)[:300])
print(len(L))
