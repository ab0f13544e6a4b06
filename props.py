TECH = ("symbolic execution of the LLVM IR compiled from /repo's current source; obligations decided by SMT (z3, cvc5); "
        "counterexamples replayed natively against the real code")
PROPS = {}
NOT_APPLICABLE = []

def prop(id, title, statement, over, quant, why, files, mech, bounds, assumptions=(), **kw):
    assert len(title) <= 80, title
    PROPS[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                     bounds=bounds, assumptions=list(assumptions), **kw)

CAT = "every unit of the catalogue of 252 prelude units and combinations (harness/src/units.rs), audio inputs symbolic per sample in [-1, 1], control inputs symbolic in their usual ranges"

prop("C01", "Block processing equals sample-by-sample processing",
     "For every unit and graph, processing a signal in blocks gives the same samples (up to floating point noise) as processing it one sample at a time. "
     "This holds for every way of cutting the signal into blocks of 1 to 64 samples. Units documented to work at block rate (periodic updates) are exempt.",
     ["inputs", "configurations"], "all input signals and parameter values, all units, all block partitions",
     "tests compare a few random signals for a few dozen nodes, always with one block pattern",
     ["src/audionode.rs", "src/combinator.rs", "src/delay.rs", "src/svf.rs", "src/biquad.rs", "src/oscillator.rs", "src/net.rs", "src/sequencer.rs"],
     [("block processing entry point of every unit", "AudioNode::process, AudioUnit::process"), ("single sample entry point", "AudioNode::tick, AudioUnit::tick"),
      ("remainder handling", "src/audionode.rs process_remainder")],
     CAT + "; 70 samples; partitions 64+6, 1+7+8+3+51, 13+57 (9 samples and 9, 1+8, 5+4 for units that branch on data every sample)",
     ["`update` (System) is exempt: its update interval is documented as approximate and tied to blocks"])

prop("C02", "Reset restores the initial state",
     "After any processing history, resetting a unit makes its subsequent output for any input identical to that of a newly built unit with the same settings. "
     "A sequencer that does not replay events is exempt because reset clears its events by design.",
     ["histories", "inputs"], "all histories of block and single sample processing, all later inputs, all units",
     "tests reset a few generators after a fixed history and compare a few samples",
     ["src/audionode.rs", "src/audiounit.rs", "src/filter.rs", "src/svf.rs", "src/delay.rs", "src/dynamics.rs", "src/noise.rs", "src/oscillator.rs", "src/net.rs", "src/sequencer.rs"],
     [("reset of every unit", "AudioNode::reset, AudioUnit::reset"), ("reset of composite units", "src/audionode.rs combinators, src/net.rs, src/sequencer.rs")],
     CAT + "; history of 20 samples in two blocks or single samples, then 72 samples compared")

prop("C03", "Clones are identical and independent",
     "A clone taken at any point of a unit's life continues exactly as the original would. "
     "Afterwards processing one of the two never affects the output of the other. Explicitly shared values (shared variables and channels) are the only link between them.",
     ["histories", "inputs"], "all histories before cloning, all pairs of later inputs, both orders of execution, all units",
     "tests clone units only incidentally and never drive clone and original with different inputs",
     ["src/audiounit.rs", "src/combinator.rs", "src/net.rs", "src/vertex.rs", "src/sequencer.rs", "src/buffer.rs"],
     [("cloning of units", "Clone implementations of nodes, Net, Sequencer, Slot, BufferVec"), ("boxed clone", "dyn AudioUnit clone")],
     CAT + "; history of 17 samples, then 70 samples of different symbolic inputs for clone and original, in both orders")

prop("C14", "Changing the sample rate leaves no trace of the old rate",
     "A unit that is run at one sample rate, switched to another and reset behaves exactly like a new unit set directly to the second rate. "
     "Every delay, coefficient and table that depends on the rate follows the change.",
     ["histories", "configurations", "inputs"], "all histories at the first rate, all inputs, all units, rates going up, down and staying equal",
     "tests use the default sample rate nearly everywhere",
     ["src/audionode.rs", "src/delay.rs", "src/filter.rs", "src/svf.rs", "src/biquad.rs", "src/dynamics.rs", "src/feedback.rs", "src/net.rs", "src/envelope.rs"],
     [("sample rate changes", "AudioNode::set_sample_rate, AudioUnit::set_sample_rate")],
     CAT + "; 12 samples at 96000, 22050 or 48000 Hz, then 48000 Hz, reset and 80 samples compared")

prop("C24", "No heap operation while processing",
     "Once a unit has been prepared for real-time use with its preallocation call, processing it, by block or by sample and for any input, neither allocates nor frees heap memory. "
     "Freeing a finished event in a sequencer that is used without its real-time backend is exempt.",
     ["inputs", "configurations"], "all inputs and block sizes, all units, before and after a sample rate change, originals and clones",
     "no test observes the allocator",
     ["src/audionode.rs", "src/audiounit.rs", "src/dynamics.rs", "src/feedback.rs", "src/net.rs", "src/oversample.rs", "src/resample.rs"],
     [("preallocation", "AudioNode::allocate, AudioUnit::allocate"), ("processing", "tick, process")],
     CAT + "; 64 + 7 samples in blocks and 9 single samples")

prop("C04", "Graph operators mean what they say",
     "Every graph operator, indexed combinator and plumbing node computes exactly the documented function of the outputs of its operands: pipe feeds, stack places side by side, branch and bus share inputs, arithmetic works channelwise, thru passes the missing channels. "
     "The operands keep their own state and are processed exactly once per sample, whatever their numbers of inputs and outputs.",
     ["inputs", "programs"], "all input signals and scalar operands, all operators over stateful operands with equal and unequal numbers of channels, nested expressions, block and single sample processing",
     "tests compare operators with each other on a few fixed generators, mostly with one channel",
     ["src/combinator.rs", "src/audionode.rs", "src/prelude.rs", "src/hacker.rs"],
     [("operators", "impl Shr, BitOr, BitXor, BitAnd, Add, Sub, Mul, Neg, Not for An"), ("nodes behind them", "Pipe, Stack, Branch, Bus, Binop, Unop, Thru, MultiBus, MultiStack, MultiBranch, Reduce, Chain"),
      ("plumbing", "Split, MultiSplit, Join, MultiJoin, Reverse, Pass, Sink, Constant, Map, Tick, Impulse")],
     "41 operator expressions over stateful probe nodes with 0-2 inputs and 1-2 outputs and 40 combinator and plumbing cases; inputs symbolic in [-1, 1], scalars symbolic in [-2, 2]; 67 samples in blocks of 64, 2, 1 and 9 single samples; up to 6 channels")

prop("C05", "Dynamic networks mean the same as static graphs",
     "A network built with the graph operators, from networks or from a network and a static unit in either order, produces the same output as the corresponding static graph. "
     "This includes networks with pass-throughs from inputs to outputs and with unconnected ports, which read zero.",
     ["inputs", "programs"], "all input signals and scalar operands, all network operators in both operand orders, nested expressions, pass-through and unconnected channels",
     "tests compare networks on random graphs with concrete inputs and without unconnected ports",
     ["src/net.rs", "src/vertex.rs"],
     [("network operators", "Net::pipe, stack, branch, bus, sum, product, binary, thru, scalar and the operator impls"), ("execution", "Net::tick, Net::process, determine_order"),
      ("plumbing helpers", "pipe_input, pipe_output, pipe_all, chain, pass_through, wrap")],
     "41 operator expressions and 12 groups of plumbing cases over stateful probe nodes; inputs symbolic in [-1, 1], scalars symbolic in [-2, 2]; 67 samples in blocks and 9 single samples; up to 6 channels")

prop("C06", "Network edits do exactly what they say",
     "After any sequence of edits, a network computes the graph that the edits describe: every edit changes only the connections it names, every other node keeps its connections, identity and state, and removed nodes leave zeros or pass-throughs behind. "
     "Queries report the same graph, and an error is reported exactly when the graph has a cycle.",
     ["histories", "inputs"], "all sequences of edits with all their parameters, with processing before, between and after, all input signals",
     "tests apply a random history of edits without comparing the result with a model of the graph",
     ["src/net.rs", "src/vertex.rs"],
     [("edits", "Net::push, connect, connect_input, connect_output, pass_through, disconnect, remove, remove_link, replace, set_source, set_output_source, pipe_input, pipe_output, pipe_all, chain"),
      ("order of execution and cycles", "Net::determine_order, Net::error")],
     "networks of 3-4 stateful nodes; all pairs of the 16 edits with all parameters from two starting graphs, with and without processing in between, and all triples of removals, additions and output pipes; 2-6 symbolic samples")

prop("C07", "Real-time backends follow their frontends",
     "Whatever the interleaving of edits, commits, settings and audio processing, the output of a backend is that of the graph or event list last committed in its frontend, as if the edits had been made directly. "
     "Nodes that an edit does not touch keep their state, no committed edit is lost however many commits pass between two audio blocks, and nothing changes before it is committed.",
     ["schedules", "histories", "inputs"], "all interleavings of frontend operations with backend processing, all inputs",
     "tests exercise one interleaving of commit and processing",
     ["src/net.rs", "src/realnet.rs", "src/vertex.rs", "src/realseq.rs", "src/sequencer.rs", "src/slot.rs"],
     [("network backend", "Net::backend, Net::commit, NetBackend::handle_messages, Net::migrate"), ("sequencer backend", "SequencerBackend::handle_messages"), ("slot", "SlotBackend::handle_messages")],
     "a network of three stateful nodes with a backend; all pairs of the 19 edits and all triples of structural edits with commits and blocks of 1-6 samples in every order; sequencer and slot operations in every order; messages are handled at block boundaries, so interleavings are those of whole operations")

prop("C09", "Sequencer events play exactly when scheduled",
     "Every event sounds from the sample nearest its start time up to the sample nearest its end time, scaled by its fades, whatever the block boundaries, however it was added (absolute, relative, with a duration), and whether it was added before or after it should have started. "
     "Shortening an event moves its end and fade exactly there, waiting or already playing, and other events are not affected. After a reset a replaying sequencer plays the same again.",
     ["histories", "inputs", "configurations"], "all event times, lengths, fades and edits, all block boundaries, all sample rates",
     "tests play one or two events with fixed times and blocks",
     ["src/sequencer.rs", "src/realseq.rs"],
     [("scheduling", "Sequencer::push, push_relative, push_duration, edit, edit_relative, ready_to_active"), ("playing", "Sequencer::tick, Sequencer::process, fade_in, fade_out")],
     "up to 3 stereo events; starts from 2 samples in the past to 66 samples ahead, lengths 2, 5, 69 and infinite, start and end times symbolic within the sample (without fades) or on it (with fades of 1-2 samples of both shapes), edits at 0, 1, 4 and 68 samples ahead; blocks of 1, 3, 5, 7, 64 and single samples; up to 150 samples; 22050, 44100 and 48000 Hz")

prop("C08", "Crossfades are smooth and end at the last unit requested",
     "While a unit in a network or slot is replaced with a crossfade, the output is the weighted sum of the old and the new unit with the weights of the chosen fade shape; it lasts the requested time and then only the new unit is heard. "
     "Requests made during a fade follow it, the last one wins, and the outcome is the same for direct and real-time use. Sample rate changes and resets during a fade reach every unit taking part.",
     ["histories", "inputs", "schedules"], "all sequences of three requests with any fade shape and time, all timings relative to processing, all input signals",
     "tests only check that output stays finite during a few fades",
     ["src/vertex.rs", "src/slot.rs", "src/net.rs", "src/realnet.rs"],
     [("crossfade of a network node", "src/vertex.rs Vertex::tick, process, enqueue, next_phase"), ("crossfade of a slot", "src/slot.rs SlotBackend"), ("requests", "Net::crossfade, Net::fade_in, Slot::set")],
     "three requests with fade times of 0, 1.75 and 3.5 samples at 44100 and 48000 Hz, both fade shapes, every interleaving with processing of 0, 1, 2 or 5 samples, by block and by sample; symbolic inputs",
     ["in block processing a queued fade starts at the next block (documented in the code)"])

prop("C10", "Settings reach the addressed node and mean what constructors mean",
     "A setting sent to a graph changes the node that its address names and nothing else, through operators, indexed structures, nested networks, wrappers, real-time backends and setting listeners, in the order of sending. "
     "Setting a parameter has the same effect as constructing the node with it, also across sample rate changes, and does not disturb the state of the node.",
     ["inputs", "programs", "histories"], "all parameter values, all addressable structures and addresses up to four levels, all nodes with documented settings, all input signals",
     "tests send one setting each to a handful of nodes",
     ["src/setting.rs", "src/audionode.rs", "src/net.rs", "src/svf.rs", "src/biquad.rs", "src/filter.rs", "src/follow.rs", "src/oscillator.rs", "src/noise.rs"],
     [("addressing", "src/setting.rs Setting, direction, peel"), ("forwarding", "set of combinators, Net, Unit, adapters"), ("listener", "src/setting.rs SettingListener"), ("settings of nodes", "set of the nodes in README's settings table")],
     "structures with up to 7 leaves and 4 address levels plus an address that names no leaf, two settings per run; 45 settings of units with symbolic parameter values, 9 samples at two sample rates; symbolic inputs",
     ["README lists `delay` for allnest_c, which has no delay parameter and no setting constructor for its coefficient: not claimed"])

prop("C11", "Latency and frequency response of a graph follow from its parts",
     "The latency and the frequency response that a graph reports are the composition of those of its nodes: responses multiply along pipes and add in buses and sums, constants scale, nonlinear parts keep only the latency, and the smallest latency of parallel paths counts. "
     "Static graphs, networks, indexed structures and wrappers report the same, whatever signals arrive at the inputs, and latency follows the sample rate.",
     ["inputs", "programs"], "all complex responses, latencies and constants arriving at the inputs, all operators, combinators and wrappers, nested expressions, all frequencies",
     "tests check the response of a few filters and the latency of a limiter",
     ["src/signal.rs", "src/audionode.rs", "src/audiounit.rs", "src/net.rs", "src/combinator.rs", "src/pan.rs", "src/dynamics.rs", "src/slot.rs"],
     [("signal algebra", "src/signal.rs Signal, Routing"), ("analysis of nodes", "AudioNode::route of combinators, Net::route"), ("queries", "AudioUnit::response, AudioUnit::latency")],
     "41 operator expressions, static and as networks, and 30 combinators, plumbing nodes and wrappers, over nodes with known responses and latencies; input signals of every kind with symbolic complex response in [-2, 2]^2, latency in [0, 100] and value in [-2, 2]; symbolic frequency; up to 4 inputs")

prop("C12", "Filters do to every signal what their frequency response says",
     "For every linear filter, processing an arbitrary signal gives the convolution of the signal with the impulse response that corresponds to the frequency response the filter reports. "
     "This holds for fixed and input controlled parameters, for composed filters, at every sample rate, in block and single sample processing.",
     ["inputs", "configurations"], "all input signals, all linear filters, several parameter values and sample rates",
     "tests compare responses with the processing of one impulse per filter at one sample rate and with a wide tolerance",
     ["src/svf.rs", "src/biquad.rs", "src/filter.rs", "src/fir.rs", "src/delay.rs", "src/follow.rs", "src/signal.rs"],
     [("reported responses", "SvfMode::response, BiquadCoefs::response, route of filters"), ("processing", "tick and process of filters, coefficient computations")],
     "40 filters with 1-12 combinations of parameters that decay within 128 samples, 44100 and 48000 Hz; 12 symbolic samples, in one block or one by one; the reported response is sampled at 65 frequencies",
     ["filters whose impulse response is longer than 128 samples (pinkpass, low cutoffs, high Q) are outside the bound"])

prop("C13", "Delays, taps and feedback loops are sample accurate",
     "A fixed delay returns exactly the input of the nearest whole number of samples ago; a tap returns the interpolated input at the requested time, clamped to its limits, and several taps add up. "
     "A feedback loop computes its recurrence exactly, with the documented loop delay, matrix and extra processing, and its contents keep their own state, whatever the block sizes and the sample rate.",
     ["inputs", "configurations"], "all input signals, all delay times, coefficients and numbers of taps, loop delays shorter and longer than blocks",
     "tests feed impulses through a few delays of fixed length",
     ["src/delay.rs", "src/feedback.rs", "src/hacker.rs", "src/prelude.rs"],
     [("fixed delay", "Delay::tick, set_sample_rate"), ("taps", "Tap, TapLinear tick and process"), ("loops", "Feedback, Feedback2, FeedbackUnit, FrameHadamard"), ("nested allpass", "AllNest::tick")],
     "delays of 0-65 samples, taps of 1-30 samples with symbolic fractions and symbolic values outside the limits, 1-3 taps, loops with delays of 1-70 samples around stateful nodes with 1-4 channels, symbolic gains and coefficients; 12-75 symbolic samples one by one and in two block patterns; 8000-96000 Hz")

prop("C15", "Pseudorandom generators depend only on structure, location and seed",
     "Identical graphs give identical signals, and every generator in a graph is seeded from its location, so that generators in different locations give different signals. "
     "Setting a custom hash for a graph reaches every generator inside every kind of container, and different hashes have different effects. "
     "An explicit noise seed or initial oscillator phase overrides all of this, and maximum length sequences have their full period for every seed.",
     ["configurations", "inputs", "histories"], "all custom hashes, seeds and phases; all containers; generators alone, in graphs and in networks",
     "tests hear no difference between seeded and unseeded generators; hashes, seeds and phases form a 64 bit space",
     ["src/audionode.rs", "src/audiounit.rs", "src/noise.rs", "src/oscillator.rs", "src/wavetable.rs", "src/net.rs", "src/slot.rs", "src/math.rs", "src/combinator.rs", "src/feedback.rs", "src/oversample.rs", "src/resample.rs"],
     [("hash distribution", "AudioNode::ping, AudioUnit::ping, AttoHash"), ("hash use", "set_hash of generators"), ("overrides", "An::seed, An::phase, Setting::seed, Setting::phase"), ("maximum length sequences", "MlsState")],
     "31 containers with up to 7 recording nodes and two symbolic 64 bit hashes; 22 generators with a symbolic seed or phase over 9 samples; distinctness of default locations over 40 samples; sequences of up to 8 bits over their whole period, successor states for all sizes up to 31 bits",
     ["hash injectivity is decided per container, collisions between locations for an adversarial custom hash are not excluded"])

prop("C17", "Mathematical helper functions meet their documentation",
     "Clamping, interpolation, easing, spline, soft response and waveform functions stay within their documented ranges and agree with their definitions for every argument. "
     "The monotonic spline never overshoots, inverse functions invert, hash functions are permutations and pseudorandom numbers and noise functions stay in range for every seed.",
     ["inputs"], "all arguments and seeds in the stated ranges",
     "the tests evaluate a few dozen points; overshoot, range and permutation claims quantify over continua and 64 bit spaces",
     ["src/math.rs"],
     [("interpolation and easing", "src/math.rs lerp, delerp, spline, spline_mono, smooth3...smooth9, uparc, downarc"), ("hashing and noise", "src/math.rs hash1, hash2, rnd1, rnd2, AttoHash, ease_noise, spline_noise, fractal_noise")],
     "arguments symbolic in [-1, 1] to [-1000, 1000]; seeds symbolic or chosen from a few; noise at a few cells with a symbolic position inside the cell",
     ["logarithms, exponentials and trigonometric functions of symbolic arguments are uninterpreted; they are compared with their definitions and evaluated at octaves and decades"])

prop("C19", "Waves are edited exactly and rendered sample for sample",
     "Every history of edits to a wave gives the samples, channels, length and duration that a plain model of channels of samples gives, for spans that reach outside the wave too. "
     "Rendering and filtering run the unit at the sample rate of the wave over exactly the requested number of samples, with zero input after the end, and the latency discarding variants align the result with the input.",
     ["inputs", "histories"], "all sample values, histories of edits, offsets, spans, lengths, sample rates and latencies",
     "tests edit a few fixed waves; spans outside the wave, odd lengths and other sample rates are not visited",
     ["src/wave.rs"],
     [("editing", "Wave::push_channel, insert_channel, remove_channel, mix_channel, append, push, resize, retain, amplify, normalize, fade_in, fade_out"), ("rendering", "Wave::render, render_latency, filter, filter_latency")],
     "waves of 0-2 channels and 3 symbolic samples with two edits each from 11 kinds, offsets -3...4, spans of 0-9 samples and unbounded; renderings of 0-201 samples at 3 sample rates with latencies of 0-76 samples",
     ["reading compressed files (symphonia) is outside the property"])

prop("C20", "WAV files hold the samples of the wave, or an error is reported",
     "The bytes written for a wave are a well formed WAV file with the right channels, sample rate and sizes, from which the samples are recovered, exactly in the 32 bit format and within one step after clipping in the 16 bit format. "
     "When the destination fails at any byte, the writer reports an error; it reports success only when everything was written.",
     ["inputs", "fault_sequences"], "all sample values, shapes and sample rates; destinations that accept any number of bytes in pieces of any size",
     "tests write no files to failing destinations and compare no bytes",
     ["src/write.rs"],
     [("headers", "write_wav_header"), ("samples", "Wave::write_wav16, Wave::write_wav32")],
     "1-3 channels, 0-3 symbolic samples in [-100, 100], 3 sample rates, 8 failure points, two piece sizes",
     ["decoding by symphonia is outside the property; the file system calls of save_wav16 and save_wav32 are not encoded"])

prop("C18", "Buffers, block adapters and convenience calls are transparent",
     "Every view of an audio buffer, scalar or vector, owned or borrowed, whole or subset, reads what was last written through any other view. "
     "Adapters that change block sizes give the same signal as the adapted unit for every sequence of calls, and the mono and stereo convenience calls agree with ordinary processing.",
     ["inputs", "histories"], "all sample values, writes through every accessor, all sequences of single samples and blocks of any size",
     "tests use one adapter with one block size",
     ["src/buffer.rs", "src/audiounit.rs", "src/audionode.rs"],
     [("buffers", "src/buffer.rs BufferVec, BufferArray, BufferRef, BufferMut"), ("adapters", "src/audiounit.rs BigBlockAdapter, BlockRateAdapter"), ("convenience", "get_mono, get_stereo, filter_mono, filter_stereo")],
     "buffers of 1-4 channels with symbolic contents and up to two writes at 8 places; big blocks of 0-200 samples; block rate adapter over up to 160 samples in 5 call patterns")

prop("C23", "Values shared with other threads arrive unchanged and in order",
     "Shared variables, timers and atomic tables show the latest value on both sides, timers count exactly the processed time, and functions of variables follow them. "
     "Snooped and queued samples arrive complete and in order for every interleaving of producer and consumer calls, whatever the block sizes, and underruns give zeros.",
     ["inputs", "schedules", "histories"], "all values, all interleavings of up to 8 producer and consumer calls, several block patterns and sample rates",
     "tests do not interleave the two sides and check no snooped data",
     ["src/shared.rs", "src/snoop.rs", "src/ring.rs"],
     [("variables", "src/shared.rs Shared, Var, VarFn, Timer"), ("tables", "src/shared.rs AtomicTable, AtomicSynth"), ("snooping", "src/snoop.rs Snoop, SnoopBackend"), ("queueing", "src/ring.rs Ring")],
     "symbolic values; up to 210 snooped samples with capacities 1-256, all 256 interleavings of 8 calls on a ring of 4 frames, tables of 4 entries",
     ["interleavings are at the level of whole calls: the lock-free queues themselves (thingbuf) are executed symbolically but not with concurrent steps; overflow of the snoop queue (1024 buffers) is outside the bound"])

prop("C25", "Limiters limit, meters measure, followers follow, envelopes interpolate",
     "The look-ahead limiter delays its input by exactly its reported latency, never exceeds the range -1...1, never amplifies, treats channels alike and passes quiet signals unchanged. "
     "Peak and mean square meters, followers, fade-ins, control envelopes and the gated envelope give the values and times that their documentation states, for every input, at every sample rate, and clones are independent.",
     ["inputs", "configurations", "histories"], "all input signals, gates and sustain levels; several times and sample rates; envelopes of all linear functions",
     "tests limit one noise signal and look at no meter, follower or gated envelope",
     ["src/dynamics.rs", "src/follow.rs", "src/envelope.rs", "src/adsr.rs"],
     [("limiter", "src/dynamics.rs Limiter, ReduceBuffer"), ("meters", "src/dynamics.rs MeterState, MeterNode, Monitor"), ("followers", "src/follow.rs Follow, AFollow, halfway_coeff"), ("envelopes", "src/envelope.rs Envelope, EnvelopeIn"), ("gated envelope", "src/adsr.rs adsr_live")],
     "limiters with look-ahead of 2-5 samples and 6-8 symbolic samples in [-4, 4], impulses of any height up to 100 with look-ahead up to 44 samples; reductions of 1-9 items; meters and followers over 4-5 symbolic samples; envelopes over 200 samples at 3 sample rates; gated envelopes over up to 600 samples",
     ["a limiter with a look-ahead of one sample cannot reach its gain in time and is outside the bound"])

prop("C16", "Oscillators and noise follow their phase, frequency and seed exactly",
     "An oscillator outputs its documented waveform, in its documented range, at a phase that starts from the initial phase and advances by frequency over sample rate every sample, for any frequency signal. "
     "Wavetables reproduce the wave or partials they were made from at every frequency and phase; sample-and-hold and plucked string are sample accurate. "
     "Noise stays within range for every seed and a maximum length sequence of n bits repeats after exactly 2^n - 1 steps.",
     ["inputs", "configurations"], "all frequency signals, phases, roughness values, pulse widths, seeds, wavetable frequencies",
     "tests render a few oscillators at one frequency and look at amplitude or block equality only",
     ["src/oscillator.rs", "src/wavetable.rs", "src/noise.rs"],
     [("phase accumulation and waveforms", "Sine, Ramp, PolySaw, PolySquare, PolyPulse, Dsf"), ("wavetable choice, mixing and construction", "Wavetable::new, from_wave, read, read_simd, table_index; WaveSynth"),
      ("noise", "MlsState, Mls, Noise, Hold"), ("plucked string and chaotic oscillators", "Pluck, Rossler, Lorenz")],
     "3 to 24 samples per run; frequencies symbolic per sample up to +-20 kHz (poly waveforms 100...1000 Hz), initial phases 0, 0.25, 0.625, 0.96875 (range checks: any), 3 sample rates; wavetables with up to 8 tables, 5 to 16 phases, symbolic frequency; MLS 1 to 31 bits, all seeds",
     ["sine and pow of symbolic arguments are uninterpreted, so sine waveforms are checked up to the argument"])

prop("C21", "Playback, resampling, oversampling and resynthesis reproduce the signal",
     "A wave player outputs exactly the samples from its start to its end point, continues at its loop point and is silent afterwards. "
     "A resampler outputs the cubic interpolation of its source at a position that advances by the speed input; an oversampled linear node responds to any signal with the same superposition of impulse responses at unity gain. "
     "A resynthesizer that copies spectra reconstructs its input one window length later; the Fourier transform meets its definition and is inverted exactly.",
     ["inputs", "configurations", "histories"], "all wave contents and signals; start, end and loop points; speed sequences; window lengths; block partitions",
     "tests check one resynthesis window length and round trips of a few signals",
     ["src/wave.rs", "src/resample.rs", "src/oversample.rs", "src/resynth.rs", "src/fft.rs"],
     [("wave playback", "WavePlayer, wavech, wavech_at"), ("variable speed resampling", "Resampler::tick"), ("2x oversampling", "Oversampler::tick and its half band filters"),
      ("overlap-add resynthesis and window callback", "Resynth::tick, FftWindow"), ("Fourier transform interface", "real_fft, inverse_fft, fix_nyquist, fix_negative")],
     "waves of 5 samples with all start, end and loop points among listed values, 12 samples played and replayed after reset; resampler up to 190 outputs over 300 symbolic samples; oversampler up to 90 samples (buffer wraps); windows of 4 to 32 samples; transforms of 2 to 64 samples, all signals in -1...1")

prop("C22", "Waveshapers, panners and mixers compute their documented functions",
     "Every waveshaper computes its documented function of the input within its documented range, for every input and hardness, alone and in blocks. "
     "Panning is linear and keeps the total power for every pan value, values beyond the ends act like the ends, rotations and diffusive feedback matrices keep the norm of the signal, and mixers multiply by their matrix.",
     ["inputs", "configurations"], "all input values and signals, hardness, limits, pan values, angles, gains",
     "tests call a few shapers and panners with sampled values",
     ["src/shape.rs", "src/pan.rs", "src/feedback.rs", "src/prelude.rs"],
     [("waveshapes", "Clip, ClipTo, Tanh, Atan, Softsign, Crush, SoftCrush, Adaptive, ShapeFn, Shaper"), ("panning and mixing", "Panner, Mixer, rotate"), ("feedback matrix", "FrameHadamard")],
     "single samples and blocks of 9 to 11 samples; inputs up to +-100 (clip +-1e6, staircases +-3), hardness 0.25, 1, 3, 10 (clip: any in 0.1...10), pan values in -1...1 and beyond, angles +-10, matrices of 2 to 32 channels",
     ["sine, cosine, tanh and atan of symbolic arguments are uninterpreted with range, monotonicity and sin^2 + cos^2 = 1"])
