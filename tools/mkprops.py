import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Filtering obeys the recursive difference equation",
  "For any chain of second-order sections and any finite input sequence, every output sample equals what the textbook difference equation of that chain gives from a zero initial state, whichever filter structure (Direct Form I, Direct Form II, transposed Direct Form II) is chosen and however long the sequence is. A filter that has never been set up passes samples through unchanged. reset() at any point returns the delay lines, and only the delay lines, to the zero state. A sample that is not finite shows: the output is not finite either and, with feedback, remains so until then.",
  ["inputs","histories"],"All section coefficients, chain lengths, structures, input sequences and reset positions.",
  "TestState compares 3 and 7 samples of two fixed coefficient sets for two of the three structures (transposed Direct Form II is never run) and nothing tests reset() mid-stream.",
  ["iir/State.h","iir/Cascade.h","iir/Biquad.h","iir/RBJ.h","iir/Custom.h"],
  [("DirectFormI/DirectFormII/TransposedDirectFormII::filter","iir/State.h"),("CascadeStages::filter, reset","iir/Cascade.h"),("RBJbase::filter, reset","iir/RBJ.h")],
  [("delay lines","past inputs/outputs or state variables of each section","iir/State.h")],["filter()","reset()"])

p("C02","The reported frequency response is what the filter does to a signal",
  "For every accepted design of every filter family the complex value returned by the frequency-response query at any frequency from 0 to Nyquist equals the discrete-time Fourier transform of the impulse response that the filter produces when it processes samples. This holds for every structure, every order, and for orders below the one the filter was instantiated with.",
  ["inputs","configurations"],"All families, types, orders, structures, parameter values and query frequencies.",
  "No test calls the response query at all; the processing tests only check that an impulse decays or that one sine is removed.",
  ["iir/Cascade.cpp","iir/Biquad.cpp","iir/Cascade.h","iir/State.h"],
  [("Cascade::response","iir/Cascade.cpp"),("Biquad::response","iir/Biquad.cpp"),("CascadeStages::filter","iir/Cascade.h")],None,["response()","filter()"])

p("C03","Butterworth low/high/bandpass/bandstop realise the Butterworth response",
  "For every order and every valid cutoff (or centre and width), a Butterworth lowpass, highpass, bandpass or bandstop has exactly the frequency response of the Butterworth prototype under the pre-warped bilinear frequency mapping: unity gain in the passband (DC, Nyquist or band centre), -3.01 dB at each band edge, monotone skirts, and the order requested. Gain and phase agree with the closed form at every frequency.",
  ["inputs","configurations"],"All orders, cutoff/centre frequencies, widths and query frequencies.",
  "TestButterworth sets up five fixed designs and checks only that an impulse dies out or that one far-stopband sine falls below 1e-5; a wrong cutoff, gain, order or skirt is not noticed.",
  ["iir/Butterworth.cpp","iir/Butterworth.h","iir/PoleFilter.cpp","iir/PoleFilter.h","iir/Layout.h","iir/Biquad.cpp","iir/Cascade.cpp"],
  [("AnalogLowPass::design","iir/Butterworth.cpp"),("LowPass/HighPass/BandPass/BandStopTransform","iir/PoleFilter.cpp"),("Cascade::setLayout","iir/Cascade.cpp"),("Biquad::setTwoPole/setOnePole","iir/Biquad.cpp")],
  None,["response()"])

p("C04","Chebyshev I filters ripple only within the requested passband ripple",
  "For every order, frequency and ripple r > 0 dB, a Chebyshev I lowpass, highpass, bandpass or bandstop has the equiripple response of its prototype under the pre-warped bilinear mapping: the passband gain stays between -r dB and 0 dB reaching both, it is exactly -r dB at each band edge, and it falls monotonically beyond. Gain and phase agree with the closed form at every frequency.",
  ["inputs","configurations"],"All orders (odd and even normalise differently), frequencies, widths, ripples and query frequencies.",
  "TestChebyshev1 uses one ripple value (1 dB), three designs, and checks decay and one stopband sine; ripple, edge and gain normalisation are never looked at.",
  ["iir/ChebyshevI.cpp","iir/ChebyshevI.h","iir/PoleFilter.cpp","iir/Cascade.cpp"],
  [("AnalogLowPass::design","iir/ChebyshevI.cpp"),("frequency transforms","iir/PoleFilter.cpp"),("Cascade::setLayout normalisation","iir/Cascade.cpp")],None,["response()"])

p("C05","Chebyshev II filters reach at least the requested stopband rejection",
  "For every order, frequency and rejection s > 0 dB, a Chebyshev II lowpass, highpass, bandpass or bandstop attenuates every stopband frequency by at least s dB with equality at each stopband edge, has unity gain at DC, Nyquist or band centre, and is monotone in the passband. Gain and phase agree with the closed-form inverse-Chebyshev response at every frequency.",
  ["inputs","configurations"],"All orders, frequencies, widths, rejections and query frequencies.",
  "TestChebyshev2 has three designs and checks decay and one sine in the stopband of an 80 dB highpass against 1e-3.",
  ["iir/ChebyshevII.cpp","iir/ChebyshevII.h","iir/PoleFilter.cpp","iir/Cascade.cpp"],
  [("AnalogLowPass::design","iir/ChebyshevII.cpp"),("frequency transforms","iir/PoleFilter.cpp"),("Cascade::setLayout normalisation","iir/Cascade.cpp")],None,["response()"])

p("C06","Shelving filters give the requested gain in the band and 0 dB outside",
  "For every order, frequency and gain in dB (boost or cut), Butterworth and Chebyshev low-, high- and band-shelves have 0 dB gain far outside the band and never leave the range between 0 dB and the requested gain; Butterworth shelves reach the requested gain in the band and half of it (in dB) at the edges. Chebyshev shelves with ripple parameter smaller than the gain stay inside the band within the ripple of the requested gain, reach gain minus ripple at the edges, and all shelves agree in gain and phase with their closed form at every frequency.",
  ["inputs","configurations"],"All shelf types, orders, frequencies, positive and negative gains, ripple values and query frequencies.",
  "No test instantiates any shelf of these three families.",
  ["iir/Butterworth.cpp","iir/ChebyshevI.cpp","iir/ChebyshevII.cpp","iir/PoleFilter.cpp"],
  [("AnalogLowShelf::design","iir/Butterworth.cpp"),("AnalogLowShelf::design","iir/ChebyshevI.cpp"),("AnalogLowShelf::design","iir/ChebyshevII.cpp"),("BandShelfBase::setup normalisation","iir/Butterworth.cpp")],None,["response()"])

p("C07","RBJ filters realise the Audio-EQ-Cookbook responses",
  "For every frequency below Nyquist and every positive Q, bandwidth or slope, each RBJ filter has the transfer function of its cookbook entry: lowpass and highpass with gain Q at the cutoff, bandpasses peaking at the centre frequency (at 0 dB, or at Q for constant skirt gain) and, like the bandstop, with their width parameter acting as Q, bandstop and notch with a null exactly at the centre frequency, allpass with unit gain everywhere and a phase flip at the given frequency, shelves and peaking filter with the requested gain in the band and 0 dB outside. The notch has its poles at radius exp(-pi*f/Q).",
  ["inputs"],"All filter types, frequencies, Q/bandwidth/slope/gain values and query frequencies; default arguments as well as explicit ones.",
  "TestRBJ covers one lowpass and one bandstop by impulse decay and one sine; eight of the ten RBJ types are never instantiated by a test.",
  ["iir/RBJ.cpp","iir/RBJ.h","iir/Biquad.cpp"],
  [("setupN of each RBJ filter","iir/RBJ.cpp"),("Biquad::setCoefficients","iir/Biquad.cpp")],None,["response()","coefficient getters"])

p("C08","Every accepted design is stable and relaxes to zero",
  "Whenever setup accepts parameters whose band edges lie strictly inside (0, Nyquist), all poles of the resulting filter lie strictly inside the unit circle and no output sample is ever NaN or infinite for bounded input. After the input stops, the output decays to zero at the rate its slowest pole implies, in every filter structure.",
  ["inputs","configurations","histories"],"All families, types, orders, structures, accepted parameters and bounded inputs.",
  "The tests watch the impulse decay of about ten fixed designs.",
  ["iir/PoleFilter.cpp","iir/Butterworth.cpp","iir/ChebyshevI.cpp","iir/ChebyshevII.cpp","iir/RBJ.cpp","iir/Biquad.cpp"],
  [("left-half-plane prototypes","iir/Butterworth.cpp"),("bilinear transforms","iir/PoleFilter.cpp"),("band edge clamping","iir/PoleFilter.cpp")],None,["filter()","coefficient getters","getPoleZeros()"])

p("C09","Invalid parameters are always rejected, valid ones never",
  "Setup throws std::invalid_argument whenever the order exceeds the instantiated one or is negative, the frequency is NaN, negative or not below Nyquist, a bandwidth, Q, slope or ripple that must be positive is not, or any resulting coefficient would be NaN; response queries of the Butterworth and Chebyshev filters outside [0, Nyquist] and section indices out of range throw as well. It makes no difference what was done with the object before, including an earlier rejected attempt with the same values. Valid parameters are never rejected, and an accepted setup never leaves a NaN coefficient.",
  ["inputs","histories"],"All families, overloads, parameter values (in and out of range, NaN, infinite, boundary) and preceding call histories.",
  "TestBadParam tries exactly one bad value (cutoff = Nyquist) on four fresh Butterworth filters.",
  ["iir/PoleFilter.cpp","iir/Biquad.cpp","iir/Cascade.cpp","iir/Cascade.h","iir/Layout.h","iir/RBJ.cpp","iir/Butterworth.h","iir/ChebyshevI.h","iir/ChebyshevII.h"],
  [("frequency checks in the transforms","iir/PoleFilter.cpp"),("NaN checks","iir/Biquad.cpp"),("order checks","iir/Butterworth.h"),("pole/zero NaN checks","iir/Layout.h")],
  [("cached prototype parameters","parameters the analogue prototype was last designed for","iir/ChebyshevI.h")],["setup()","setupN()","response()","operator[]"])

p("C10","A rejected setup leaves the running filter untouched",
  "When a setup call throws, the filter afterwards processes samples and answers response queries exactly as if the call had never been made: same coefficients, same delay-line contents. A later valid setup then gives the same design as on a fresh object.",
  ["histories","fault_sequences"],"All families, all kinds of rejected arguments, at any point of a sample stream, and any number of rejections in a row.",
  "TestBadParam throws the object away after each exception; nothing uses a filter after a failed setup.",
  ["iir/PoleFilter.cpp","iir/Cascade.cpp","iir/Biquad.cpp","iir/Butterworth.cpp","iir/ChebyshevI.cpp","iir/ChebyshevII.cpp","iir/RBJ.cpp"],
  [("validation before commit","iir/PoleFilter.cpp"),("NaN validation before assignment","iir/Biquad.cpp"),("prototype cache keys","iir/ChebyshevI.cpp")],
  [("cached prototype parameters","must not describe a design that failed","iir/ChebyshevI.h"),("section coefficients","must stay those of the last accepted setup","iir/Cascade.h")],["filter()","response()","setup()"])

p("C11","A design depends only on the arguments of the last accepted setup",
  "After any history of setups (with other orders, ripples, gains, frequencies), filtering, resets, failures and work on other filter objects, an accepted setup yields bit-for-bit the same coefficients, response, and pole/zero report as the same call on a freshly constructed object. Filtering and reset never change the design.",
  ["histories"],"All call histories over one and several filter objects.",
  "Tests set each filter up once (one test twice with the same value after re-assignment).",
  ["iir/Butterworth.cpp","iir/ChebyshevI.cpp","iir/ChebyshevII.cpp","iir/Layout.h","iir/Cascade.cpp","iir/PoleFilter.h"],
  [("prototype cache comparison in design()","iir/ChebyshevI.cpp"),("setLayout clears unused sections","iir/Cascade.cpp"),("reset of layouts","iir/Layout.h")],
  [("analogue prototype cache","reused when order/ripple/gain are unchanged","iir/ChebyshevII.h"),("normalisation frequency and gain","left over from the previous design unless rewritten","iir/Layout.h")],["coefficient getters","response()","getPoleZeros()"])

p("C12","Copies of a filter are independent of the original",
  "A copy-constructed filter continues exactly like the original from the moment of copying, and from then on nothing done to one (setup, filtering, reset, destruction) is visible in the other. After assignment the target has the design of the source in its own storage and carries on from rest or from the delay lines of the source, never from its own old ones; later changes to or destruction of the source do not affect it, and the source is unchanged.",
  ["histories"],"All families, structures and orders, all histories before the copy, and all interleavings of operations on the copies afterwards, including destroying the original.",
  "TestOperator= copies one Butterworth highpass; its isolation check passes even when the copy's setup modifies the original, because it only asks whether the two outputs differ.",
  ["iir/PoleFilter.h","iir/Cascade.h","iir/Layout.h","iir/RBJ.h","iir/Custom.h"],
  [("PoleFilter copy constructor and assignment","iir/PoleFilter.h"),("stage and layout pointers into the object's own storage","iir/Cascade.h")],
  [("stage array pointer","must point into the same object","iir/Cascade.h"),("layout pair pointer","must point into the same object","iir/Layout.h")],["filter()","response()","coefficient getters"])

p("C13","Order override, Hz and normalised setups are interchangeable",
  "Setting up with a sampling rate and frequencies in Hz gives the same filter as the normalised setup with those frequencies divided by the sampling rate. Requesting a lower order at setup time gives exactly the filter that the same setup gives on an object instantiated with that order, in coefficients, stage count, response and output; omitting the order means the instantiated order, and documented default arguments mean their documented values.",
  ["inputs","configurations"],"All families, types, overloads, instantiated orders, requested orders, sampling rates and parameters.",
  "The tests use single overloads with fixed numbers and never compare two ways of asking for the same filter; no test requests a lower order.",
  ["iir/Butterworth.h","iir/ChebyshevI.h","iir/ChebyshevII.h","iir/RBJ.h"],
  [("setup/setupN overloads","iir/Butterworth.h"),("setup/setupN overloads","iir/ChebyshevI.h"),("setup/setupN overloads","iir/ChebyshevII.h"),("setup overloads and default arguments","iir/RBJ.h"),("unused sections become pass-through","iir/Cascade.cpp")],None,["coefficient getters","getNumStages()","filter()"])

p("C14","No heap allocation in construction, setup, filtering or reset",
  "Constructing, copying, assigning, setting up (with accepted parameters), filtering, resetting, querying the response of and destroying a filter never allocate or free heap memory, for any filter type, order or structure.",
  ["inputs","histories","configurations"],"All filter types, orders, structures and call histories without rejected arguments.",
  "No test observes the allocator.",
  ["iir/Cascade.h","iir/PoleFilter.h","iir/Layout.h","iir/RBJ.h","iir/Custom.h","iir/Butterworth.cpp"],
  [("template-sized member arrays","iir/Cascade.h"),("Layout<MaxPoles> member storage","iir/Layout.h")],None,["malloc/operator new while a call is in progress"])

p("C15","Every sample type is processed in double precision",
  "For float, double, long double and integer samples, the returned sample is the result of processing the same values in double precision, converted back once at the end; the internal state is never rounded or truncated to the sample type, and sample types may be mixed from call to call.",
  ["inputs","histories"],"All sample types, filter types, structures, sample sequences and mixtures of types within a sequence.",
  "Tests feed float or double and look only at decay; no integer samples and no comparison between types.",
  ["iir/Cascade.h","iir/RBJ.h","iir/State.h"],
  [("CascadeStages::filter<Sample>","iir/Cascade.h"),("RBJbase::filter<Sample>","iir/RBJ.h")],None,["filter()"])

p("C16","Reported poles and zeros are those of the filter",
  "After an accepted setup the reported poles and zeros, with complex ones in conjugate pairs, reproduce the filter's frequency response up to a constant factor, and their number is the filter order (twice the order for band filters). For a single section, placing poles and zeros and reading them back gives the same poles and zeros (a section with a zero at infinity may be refused), and the coefficient getters return the coefficients that were set.",
  ["inputs","configurations"],"All families, types, orders and parameters; all real or conjugate pole/zero placements and all coefficient sets of a single section, including non-unity leading coefficients and first-order sections.",
  "No test asks for poles or zeros.",
  ["iir/PoleFilter.h","iir/Cascade.cpp","iir/Biquad.cpp","iir/Biquad.h","iir/Types.h","iir/Layout.h"],
  [("PoleFilterBase2::getPoleZeros","iir/PoleFilter.h"),("BiquadPoleState","iir/Biquad.cpp"),("Cascade::getPoleZeros","iir/Cascade.cpp"),("coefficient getters","iir/Biquad.h")],None,["getPoleZeros()","getA0()..getB2()","response()"])

p("C17","Between setups every filter is linear, time-invariant and deterministic",
  "For any accepted design, the response to a scaled sum of two inputs is the scaled sum of the responses, a delayed input gives the delayed output, an output sample never depends on later input, and repeating the same calls on another object of the same type gives bit-identical output. Scaling the input by a power of two scales the output exactly.",
  ["inputs","histories"],"All filter types, structures, orders, designs, input signals (including very large, very small and long ones), scale factors and delays.",
  "Tests only use a unit impulse or a unit-amplitude sine at fixed positions.",
  ["iir/State.h","iir/Cascade.h","iir/RBJ.h"],
  [("state update of the three structures","iir/State.h"),("CascadeStages::filter","iir/Cascade.h")],None,["filter()"])

p("C18","No call history corrupts memory or executes undefined behaviour",
  "Any sequence of public operations (construct, copy, assign, move, destroy, set up with arbitrary values, filter, reset, response, pole/zero and coefficient queries, indexed section access) on any filters either completes or throws std::invalid_argument, without reading or writing outside the objects, using freed or uninitialised memory, or other undefined behaviour.",
  ["histories","inputs"],"All filter types, orders and structures, all argument values including NaN, infinities, extreme and out-of-range orders, and all call histories.",
  "Tests are built without sanitizers and run one short history per filter.",
  ["iir/Cascade.h","iir/Cascade.cpp","iir/Layout.h","iir/PoleFilter.h","iir/PoleFilter.cpp","iir/Biquad.cpp"],
  [("order and index checks","iir/Cascade.h"),("pair index check","iir/Layout.h"),("storage sized by template order","iir/PoleFilter.h")],
  [("stage and layout pointers","into storage of the same object","iir/Cascade.h")],["AddressSanitizer/UBSan reports","exceptions"])

p("C19","Without exceptions, valid use is identical and invalid use aborts",
  "Built with exception handling switched off, every accepted setup gives bit-for-bit the same design and output as the normal build. Every call that would throw there terminates the process through abort() instead of continuing with a bad filter.",
  ["configurations","inputs"],"All filter types, valid and invalid parameters, in both build configurations.",
  "The test suite is only built with exceptions on.",
  ["iir/Common.h","CMakeLists.txt"],
  [("throw_invalid_argument","iir/Common.h"),("IIR1_NO_EXCEPTIONS option","CMakeLists.txt")],None,["process exit status","coefficient getters","filter()"])

p("C20","Results do not depend on compiler, standard, optimisation or packaging",
  "The library and its headers build cleanly with gcc and clang under every C++ standard from C++11 on and any optimisation level, from several translation units at once, and the same calls give the same designs and output up to floating-point rounding. Installed under any prefix and library/include directory layout, as static or shared library, with exceptions on or off, it is found and linked through both find_package and pkg-config.",
  ["configurations"],"All combinations of compiler, language standard, optimisation level, library kind, exception option and installation layout.",
  "The tests are built in one configuration inside the source tree and link the static library target directly.",
  ["CMakeLists.txt","Config.cmake.in","iir.pc.in","JoinPaths.cmake","Iir.h"],
  [("install rules and exported targets","CMakeLists.txt"),("pkg-config template","iir.pc.in"),("package config","Config.cmake.in")],None,["build of a consumer project","its output"])

p("C21","Filter objects do not share hidden state",
  "Filter objects used concurrently from different threads, interleaved in one thread, or from a signal handler that interrupts a call on another object, without sharing an object between them, behave exactly as each would alone, and no data race occurs.",
  ["schedules","histories"],"All assignments of objects and call histories to threads, all interleavings.",
  "Tests are single-threaded and mostly use one filter at a time.",
  ["iir/Cascade.h","iir/PoleFilter.h","iir/Butterworth.cpp","iir/ChebyshevI.cpp","iir/ChebyshevII.cpp","iir/RBJ.cpp"],
  [("all state is in the objects","iir/PoleFilter.h")],None,["filter()","coefficient getters","ThreadSanitizer reports"])

p("C22","A running filter can be re-tuned without losing its state",
  "Calling setup between samples replaces the coefficients and leaves the delay lines untouched: the following outputs are those of the difference equations with the new coefficients applied to the old delay-line contents, and repeating the setup already in force changes nothing at all.",
  ["histories"],"All filter families, structures, orders, sequences of setups interleaved with samples, including changes to lower and higher orders.",
  "Only a demo program re-tunes a running filter; no test does.",
  ["iir/Cascade.cpp","iir/Cascade.h","iir/State.h","iir/RBJ.cpp","iir/PoleFilter.h"],
  [("setLayout rewrites coefficients only","iir/Cascade.cpp"),("state kept apart from coefficients","iir/Cascade.h")],
  [("delay lines","survive setup()","iir/State.h")],["filter()"])

p("C23","Imported coefficients and pole/zero placements are realised exactly",
  "A cascade built from second-order sections in scipy order (b0,b1,b2,a0,a1,a2), whether by constructor or setup, realises exactly the product of those transfer functions for any number of sections, normalising by a0. The one-pole and two-pole custom sections have exactly the given poles, zeros (real, or polar conjugate pair) and scale, and re-importing replaces all earlier coefficients.",
  ["inputs","configurations"],"All coefficient sets, including a0 different from 1 and zero coefficients, all numbers of sections, all pole/zero positions and scales.",
  "TestCUSTOM and TestState import two fixed two-section sets with a0 = 1; the one-pole and two-pole sections are never tested.",
  ["iir/Custom.h","iir/Custom.cpp","iir/Cascade.h","iir/Biquad.cpp"],
  [("CascadeStages::setup","iir/Cascade.h"),("OnePole::setup, TwoPole::setup","iir/Custom.cpp"),("Biquad::setCoefficients","iir/Biquad.cpp")],None,["filter()","coefficient getters"])

p("C24","Filters neither touch nor depend on anything outside themselves",
  "No call on a filter object - construction, copying, accepted or rejected setup, filtering, reset, query, destruction - changes the floating-point environment, locale, environment variables, handlers or standard streams, writes output, reads a clock, random numbers or the environment, or makes a system call (other than to obtain memory for an exception or a returned vector). What it returns depends on the calls made on the object only, not on errno, pending floating-point flags, locale, stack contents, or being called from a signal handler, another stack or during stack unwinding.",
  ["histories","configurations"],"All call histories on all filter types, in all such surroundings.",
  "The tests look at return values only, in one fixed surrounding.",
  ["iir/Cascade.cpp","iir/Cascade.h","iir/PoleFilter.cpp","iir/PoleFilter.h","iir/State.h","iir/Common.h","iir/RBJ.cpp","iir/Butterworth.cpp","iir/ChebyshevI.cpp","iir/ChebyshevII.cpp"],
  [("design code uses only its arguments and the object","iir/PoleFilter.h"),("throw_invalid_argument is the only way to report an error","iir/Common.h"),("CascadeStages::filter, setup, reset","iir/Cascade.h")],None,["process-wide state around each call","system calls","returned values"])

p("C25","A filter that nobody modifies can be read by several threads at once",
  "Any number of threads (or signal handlers) may at the same time query one filter object (frequency response, pole/zero pairs, number of sections, coefficients) or copy it, as long as none of them modifies it: every thread gets the answers a single-threaded program gets, no data race occurs, and the object itself is unchanged afterwards.",
  ["schedules","histories"],"All filter types and states, all mixtures of reading calls and all interleavings.",
  "No test uses threads, and no test queries a filter more than once.",
  ["iir/Cascade.h","iir/Cascade.cpp","iir/Biquad.cpp","iir/PoleFilter.h","iir/RBJ.h"],
  [("Cascade::response, getPoleZeros are const","iir/Cascade.cpp"),("copy constructors take const references","iir/PoleFilter.h")],
  [("coefficients and delay lines","only read by queries and copies","iir/Cascade.h")],["returned values","ThreadSanitizer reports"])

p("C26","Filters work before main() and until the very end of the process",
  "Filter objects with static storage duration can be constructed, set up, used and copied while other static objects are being initialised, in whatever order the translation units of program and library are initialised, and used until the end of the process, also from destructors and exit handlers. All results are identical to those in main().",
  ["schedules","histories"],"All filter types and call histories, cut at any point into parts before main(), in main() and at exit.",
  "All test filters are local variables of main().",
  ["iir/MathSupplement.h","iir/Butterworth.cpp","iir/ChebyshevI.cpp","iir/ChebyshevII.cpp","iir/PoleFilter.cpp","iir/RBJ.cpp","iir/Layout.h"],
  [("constants are initialised at compile time","iir/MathSupplement.h"),("no objects with static storage that need an initialiser","iir/PoleFilter.cpp")],None,["returned values","process exit status"])

p("C27","Every call does a bounded amount of work, whatever the data",
  "Filtering one sample takes a number of operations (and stack) proportional to the number of sections and independent of sample values - silence, denormals, huge or non-finite values -, of the parameters in force and of what was called before; the first sample after a setup, and the millionth, cost no more than others. Setup, rejected setup, reset, queries and copies are bounded in terms of the order, for every argument, and so is the size of a filter object.",
  ["histories","inputs"],"All filter types and call histories, all sample values, ordinary and extreme parameters.",
  "Tests do not look at the cost of a call; they would pass with any that ends in time.",
  ["iir/Cascade.h","iir/Cascade.cpp","iir/State.h","iir/Butterworth.cpp","iir/ChebyshevI.cpp","iir/ChebyshevII.cpp","iir/RBJ.cpp","iir/PoleFilter.cpp"],
  [("CascadeStages::filter: one pass over the sections","iir/Cascade.h"),("designs are closed forms: no iteration until convergence","iir/Butterworth.cpp")],None,["executed basic blocks","stack depth"])

p("C28","Every documented way of writing a filter program compiles and works alike",
  "A program may keep a filter of any type and any order wherever an object may live (local, static, global, thread-local, member, base class, array, container, smart pointer, optional, returned from a function), include the headers in any way, call any setup overload with arguments of any arithmetic type and with or without the defaults, pass samples of any arithmetic type in any form, copy and move the filter while running, and query it through const and base-class references: it compiles with gcc and clang from C++11 on and gives the values of the plainest form of the same program.",
  ["programs"],"All programs made of documented uses of the library; snippets with independent choices of type, place, overload, argument and sample types, copies and queries.",
  "The tests and demos are 20 programs which all use local variables, double or float arguments and no copies.",
  ["Iir.h","iir/Butterworth.h","iir/ChebyshevI.h","iir/ChebyshevII.h","iir/RBJ.h","iir/Custom.h","iir/PoleFilter.h","iir/Cascade.h","iir/Biquad.h","iir/State.h"],
  [("filter templates and setup overloads","iir/Butterworth.h"),("RBJ filters with default arguments","iir/RBJ.h"),("SOSCascade","iir/Custom.h"),("filter() takes any sample type","iir/Cascade.h")],None,["result of the compiler","output of the programs"])

p("C29","Transforms and cascades realise any analogue prototype",
  "A program can add filter families of its own in the way the library's are made: an analogue low-pass prototype (poles as conjugate pairs, real double poles and at most one single real pole; zeros at infinity or as many, matching, finite ones; a positive gain stated at frequency 0 or, for low and high pass, at infinity) in a layout, one of the four frequency transforms, a cascade laid out from the result, and PoleFilter for the storage. Every such filter with distinct, valid band edges is accepted and has, in amplitude and phase, the prototype's response at the pre-warped, transformed frequency; it can be set up again and copied like the others. A layout holds exactly the pairs added, in their order; it refuses, without changing, NaN roots, infinite poles, single roots with an imaginary part, pairs neither conjugate nor real, anything after a single pole, and access outside.",
  ["inputs","configurations"],"All stable prototypes up to order 12, all four transforms, structures, cutoffs and widths; several setups of one object.",
  "No test uses the transforms or layouts directly; the library's own families only use a few root patterns.",
  ["iir/PoleFilter.h","iir/PoleFilter.cpp","iir/Layout.h","iir/Cascade.cpp","iir/Biquad.cpp","iir/Types.h","iir/MathSupplement.h"],
  [("LowPassTransform, HighPassTransform, BandPassTransform, BandStopTransform","iir/PoleFilter.cpp"),("LayoutBase::add, addPoleZeroConjugatePairs","iir/Layout.h"),("Cascade::setLayout and its normalisation","iir/Cascade.cpp")],None,["response()","filter()"])

p("C30","Without memory filters work on; no call keeps memory",
  "Accepted setups, filtering, reset, response queries, copies and assignments succeed when no memory can be allocated. A call that does need some - a pole/zero query, the rejection of a call - may then end in std::bad_alloc (a rejection also in std::invalid_argument), never otherwise, and leaves the filter as if the call had not been made: same design, same delay lines, same answers afterwards. No call of any kind, whether it returns or throws, keeps memory behind once its result is gone.",
  ["histories","faults"],"All filter types and call histories, with allocation failing at any point of any call.",
  "No test makes an allocation fail, or counts memory.",
  ["iir/PoleFilter.h","iir/Cascade.cpp","iir/Biquad.cpp","iir/Common.h","iir/Layout.h","iir/RBJ.cpp"],
  [("getPoleZeros","iir/PoleFilter.h"),("Cascade::getPoleZeros, setLayout","iir/Cascade.cpp"),("throw_invalid_argument","iir/Common.h")],None,["exceptions","design and output after the call","memory taken and returned"])

with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,d["title"]
        f.write(json.dumps(d)+"\n")
