R = "src/reference/"

prop("C26", "OpenMP reference: no data races, results independent of threads",
     "The OpenMP reference program has no data race and, for given settings, writes the same output files whatever the number of threads and however they are scheduled; these agree with what the serial reference program writes. The threads of the MPI+OpenMP program do not race either.",
     ["schedules", "configurations"], "every number of threads, interleaving and setting (grid size, box, time step, schemes, print interval)",
     "No test runs the reference programs; a race shows only for particular interleavings.",
     [R + "GALS_Advection_OpenMP.cpp", R + "GALS_Advection_MPI_OpenMP.cpp", R + "AdvectionPointCalcs.h", R + "TimeSteppingMethods.h", R + "Hermite.h"],
     [("parallel loops", R + "GALS_Advection_OpenMP.cpp"), ("update_levelset_data", R + "TimeSteppingMethods.h")], ["output files", "memory accesses of the threads"],
     "ThreadSanitizer on a pthread OpenMP runtime with injected delays, and output comparison over thread counts, builds and the serial program",
     "Sampled settings, thread counts and delays; races found by happens-before on every observed access.")

prop("C27", "Reference programs compute the documented advection",
     "The serial and OpenMP reference programs, and each of their routines (grid nodes, vortex velocity and its derivatives, initial field, Hermite interpolation and its derivatives, backtracing by Euler or RK3, locating the departure point, super-consistent and Heun gradient update, boundary treatment, mixed derivatives), compute the gradient-augmented level set advection: value and gradient at a node come from the bicubic Hermite interpolant at the backtraced point, nodes whose departure point leaves the box follow the documented boundary treatment, and mixed derivatives are centred differences of the gradients. Every node of the grid is updated in every step, all from the fields of the step before. The fields and velocities are written at the start and after every print interval, rows of x values in order of y, and details.txt holds the settings; no invalid memory access takes place.",
     ["inputs", "configurations"], "every setting: grid size from 3x3, box, time step, final time, period, scheme, backtracing, output option and print interval",
     "No test runs the reference programs.",
     [R + "SerialCode/*.h", R + "SerialCode/GALS_Advection.cpp", R + "*.h", R + "GALS_Advection_OpenMP.cpp"],
     [("interpolation", R + "Hermite.h"), ("backtracing and location", R + "AdvectionPointCalcs.h"), ("gradient update and mixed derivatives", R + "TimeSteppingMethods.h"), ("velocity", R + "VortexVelocity.h"), ("initial field", R + "InitializeLevelSet.h")],
     ["the routines of src/reference", "output files"],
     "differential monitor of every routine and of whole runs against an independent extended-precision model, under ASan+UBSan",
     "Sampled settings; every value of every snapshot compared, tolerance from a disturbed second model run; settings where rounding alone decides a boundary branch are skipped and counted.")

prop("C28", "MPI reference programs: two ranks agree with one and never deadlock",
     "The MPI and MPI+OpenMP reference programs, run on two ranks, write the same output files as the shared-memory reference program for the same settings, for even and odd grid widths. Every message sent is received exactly once by the rank it is meant for, with the count and type the receiver expects; no rank waits for ever, even if sends do not complete before they are received; received values are complete before they are used; both ranks initialise and finalise once and end with success, without invalid memory access.",
     ["schedules", "configurations"], "every setting, relative speed of the two ranks, buffering of messages and number of threads per rank",
     "No test runs the MPI programs; a deadlock or a late message needs a particular buffering and timing.",
     [R + "GALS_Advection_MPI.cpp", R + "GALS_Advection_MPI_OpenMP.cpp", R + "defineMPI.h", R + "TimeSteppingMethods.h"],
     [("exchange of columns and time loop", R + "GALS_Advection_MPI.cpp"), ("rank and size", R + "defineMPI.h")], ["MPI calls", "output files"],
     "message-trace checker on a monitoring MPI stand-in with synchronous sends and random delays, output comparison, ASan+UBSan and valgrind",
     "Sampled settings and message timings; two processes. The MPI library is a stand-in, as none is installed.")

C = R + "CUDA/"
prop("C29", "CUDA reference computes what the serial reference computes",
     "The CUDA reference program writes, for given settings and every tile size a device accepts, the same output files as the serial reference program with the super-consistent scheme and RK3 backtracing (the only ones it implements): every node of every grid, including those beyond the last full tile, is initialised and updated in every step, and all four fields of the step in question are copied back before they are written. The result does not depend on the order in which device threads and blocks run or on when queued work is carried out; device threads do not race; nothing outside a device allocation, nothing uninitialised or freed, and no device memory from host code is accessed.",
     ["inputs", "schedules", "configurations"], "every setting (grid size from 3x3, box, time step, final time, period, output option, print interval), tile size from 1 to 32 and order of execution on the device",
     "No test runs it; neither nvcc nor a GPU is needed by the test suite.",
     [C + "*.cu", C + "Allocation.h", C + "InitializeLevelSet.h"],
     [("kernels", C + "AdvectionPointCalcsCUDA.cu"), ("interpolation and mixed derivatives", C + "HermiteCUDA.cu"), ("gradient update", C + "TimeSteppingMethodsCUDA.cu"), ("time loop and transfers", C + "GALS_Advection.cu")],
     ["device calls (launches, copies, allocations)", "device memory accesses", "output files"],
     "host execution of the kernels on a monitoring stand-in device with random thread order, guarded device memory and deferred launches, under ASan+UBSan and TSan; differential oracle against the serial program and an independent model",
     "Sampled settings, tile sizes and orders; every value of every snapshot compared. The device is a stand-in: nvcc's own code generation and warp-level effects are not observed.")
