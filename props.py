prop('C02', 'Mixing keeps channels apart and adds signals',
 'A pass-through copies its input channel by channel, sends a mono input to both sides of a stereo output, and keeps its buffers when nothing is connected. A sum outputs on each channel the sum of that channel over all inputs; the stereo-aware sum in addition lets a mono input count on every output channel. A sum without inputs is silent, and nothing left in its output buffers from earlier blocks survives.',
 ['inputs', 'histories', 'configurations'], HIST + ', numbers of inputs and channels',
 'The unit tests compare a few fixed programs; they cannot cover all sample values, leftovers in buffers and channel combinations.',
 [N + 'pass.rs', N + 'sum.rs', 'rs/synth/src/graph.rs'], [('channel loops', N + 'sum.rs'), ('input table per node', 'rs/synth/src/graph.rs')],
 ['output buffers of the node after a block'],
 note=NOTE + 'up to 3 inputs and 3 channels enumerated.')
prop('C03', 'Arithmetic on signals is exact and per sample',
 'Multiplying or adding with a number gives, on every output channel and sample, the input combined with the number last set. With a second signal the two inputs are combined sample by sample in whatever way the ports were wired. Mono inputs serve both output channels, and inputs are never modified.',
 ['inputs', 'histories', 'configurations'], HIST + ', each way of wiring the ports',
 'Only one program with a fixed factor is tested; value changes between blocks, second inputs and leftovers are not.',
 [N + 'operator/mul.rs', N + 'operator/add.rs'], [('process', N + 'operator/mul.rs'), ('process', N + 'operator/add.rs')],
 ['output buffers after a block'], note=NOTE + 'up to 3 input and 3 output channels enumerated.')
prop('C04', 'Oscillators advance their phase by frequency over sample rate',
 'Each sample of a sine, saw, square or triangle is its waveform at the current phase, and after each sample the phase advances by frequency divided by sample rate, wrapping by one turn. The frequency is the number last set, or, with an input connected, the input sample (a zero input sample leaves saw, square and triangle at the previous frequency). Phase is continuous across blocks and frequency changes.',
 ['inputs', 'histories'], HIST,
 'Tests look at one sine of fixed frequency for one block; drift, wrap and changes over long histories need all histories.',
 [N + 'oscillator/sin_osc.rs', N + 'oscillator/saw_osc.rs', N + 'oscillator/squ_osc.rs', N + 'oscillator/tri_osc.rs'],
 [('phase accumulator', N + 'oscillator/sin_osc.rs')], ['output buffers after a block'], note=NOTE + 'sine checked on all its channels, the others on their one channel.')
prop('C05', 'Oscillators never leave the range -1 to 1',
 'With a frequency between zero and the sample rate at all times, whether set by number or by signal, no sine, saw, square or triangle sample is ever below -1, above 1 or not a number.',
 ['inputs', 'histories'], HIST, 'A bound on all samples of all histories cannot be sampled.',
 [N + 'oscillator/sin_osc.rs', N + 'oscillator/saw_osc.rs', N + 'oscillator/squ_osc.rs', N + 'oscillator/tri_osc.rs'],
 [('phase wrap', N + 'oscillator/saw_osc.rs')], ['output buffers after a block'],
 note=NOTE + 'the range of sinf is an axiom (|sin x| <= 1 for finite x).')
prop('C06', 'Impulses, constants, value patterns and noise follow the clock',
 'An impulse source emits a one every floor(sample rate / frequency) samples (at least one) starting with the first sample and zero elsewhere; a constant emits the number last set. A value pattern switches to each value at its time within the span, repeating every span of cycles at the current tempo. Noise depends only on its seed and position, restarts when reseeded, and stays within -1 to 1.',
 ['inputs', 'histories'], HIST + ', tempo changes',
 'Tests never run past a block or two; clock arithmetic over all histories is needed.',
 [N + 'signal/imp.rs', N + 'signal/constsig.rs', N + 'signal/noise.rs'], [('sample clock', N + 'signal/imp.rs'), ('pattern events', N + 'signal/constsig.rs')],
 ['output buffers after a block'], note=NOTE + 'patterns of up to 3 events with arbitrary values and times; tempo 1 to 1000; clock below 2^62 samples; noise reseeding for 40 seeds (bounded).')
prop('C07', 'Delays are sample-exact over the whole history',
 'A delay by n samples outputs what entered n samples earlier and zero before that, channel by channel, a mono signal going to both sides of a stereo output; a delay in milliseconds does so for the whole number of samples it spans (at least one). Setting a new time restarts an empty line; setting zero passes the signal straight through. With a delay-time signal in samples between one and the line length the output is the linear interpolation between the two nearest past samples.',
 ['inputs', 'histories'], HIST, 'No delay is tested at all; exactness at every position of the ring over all histories needs an invariant.',
 [N + 'delay/delayn.rs', N + 'delay/delayms.rs'], [('ring buffer', N + 'delay/delayn.rs'), ('interpolated read', N + 'delay/delayms.rs')],
 ['output buffers after a block'], level='other', note=NOTE + 'line lengths 1 to 6 samples enumerated (bounded), longer ones only in the native cross-check; modulated lines 1 to 4.')
prop('C08', 'Envelopes follow their trigger and gate',
 'A percussive envelope restarts at every positive input sample, rises linearly over the attack, falls linearly over the decay and is zero after, scaled by the trigger. A gated envelope rises from its current level to one when the gate opens, decays to the sustain level, holds it while the gate stays open, and falls linearly from its current level to zero over the release when the gate closes. Times changed by message apply from the next sample.',
 ['inputs', 'histories'], HIST, 'Nothing tests envelopes; retriggering at every moment of every ramp needs all histories.',
 [N + 'envelope/envperc.rs', N + 'envelope/adsr.rs'], [('ramp', N + 'envelope/envperc.rs'), ('gate state', N + 'envelope/adsr.rs')],
 ['output buffers after a block'], note=NOTE + 'times in 0..1000 s, clock below 2^60 samples; the single sample of a zero-length attack is not constrained.')
prop('C09', 'Panning is constant-power and balance keeps sides',
 'Panning to a position p between -1 and 1 gives the left output the input times sqrt((1-p)/2) and the right output the input times sqrt((1+p)/2); positions set outside the range act as the nearest end. With a position signal this holds sample by sample. Balance puts its first input on the left and its second input on the right unchanged, also when both are the same signal.',
 ['inputs', 'histories'], HIST, 'One position is tested on one block.',
 [N + 'effect/pan.rs', N + 'effect/balance.rs'], [('gain law', N + 'effect/pan.rs')], ['output buffers after a block'], note=NOTE + 'one to three input channels for balance, one or two for pan.')
prop('C10', 'Filters compute their recurrences across blocks',
 'The one-pole, resonant low-pass, resonant high-pass and all-pass filters satisfy their defining difference equations at every sample, with the state carried over block boundaries and parameter changes. A rate or delay signal, or a cutoff signal that is constant over each block, on the second port takes the place of the number, and a low-pass cutoff pattern switches values at its times at the current tempo.',
 ['inputs', 'histories'], HIST, 'No filter is tested; state carried across block boundaries and parameter changes needs all histories.',
 [N + 'filter/onepole.rs', N + 'filter/rlpf.rs', N + 'filter/rhpf.rs', N + 'filter/apfmsgain.rs'], [('difference equations', N + 'filter/rlpf.rs')],
 ['output buffers after a block'], note=NOTE + 'all-pass lines of 1 to 4 samples (bounded); equality is of the real-valued formulas, rounding aside; cutoff signals are taken once per block.')
PROGS = 'every history of blocks and every sample value on the engine input, for each enumerated program'
PNOTE = ('For each enumerated program the equality with the hand-wired graph is discharged for all input samples and any number of blocks; '
         'the programs themselves are enumerated (bounded), so the check is not claimed as a proof over all programs. '
         'Random programs are run natively against the same contract on every run (exploration, not counted as proof). ')
ENG = ['rs/main/src/lib.rs', 'rs/main/src/util.rs', 'rs/parser/src/lib.rs', 'rs/parser/src/nodes.rs', 'rs/parser/src/glicol.pest', 'rs/synth/src/context.rs']
prop('C01', 'Each block runs the nodes that are heard, once, sources first',
 'In every block exactly the nodes from which the output can be reached are processed, each exactly once, and a node is processed after every node feeding it unless the two are on a common feedback loop. Each node is handed one input per distinct node feeding it (itself excepted), named after that node and holding its current buffers. Buffers of nodes that are not processed keep their content, and all this remains so when the graph changes between blocks.',
 ['configurations', 'inputs', 'histories'], 'all graphs of up to four nodes including feedback, all buffer contents',
 'Only a handful of straight chains are ever tested; order, diamonds, loops and unreachable parts depend on the graph.',
 ['rs/synth/src/graph.rs'], [('depth-first post order', 'rs/synth/src/graph.rs'), ('input table', 'rs/synth/src/graph.rs')],
 ['order and inputs of process calls', 'node buffers after a block'], level='other',
 note='All graphs of up to 4 nodes are enumerated (bounded; random graphs of up to 8 nodes in the native cross-check), sample values are symbolic.')
prop('C11', 'Sequences play each note once per bar at its time',
 'A sequencer outputs, at the one sample of each bar that is the note\'s fraction of the bar at current tempo and speed, the playback ratio two to the power of (note - 60)/12, and zero at all other samples; note zero is silent. Notes written as references take the value of the referenced signal at that sample. A speed source announces its number at the first sample of each block and zeros after, and a sequencer behind it plays that many times as fast; tempo changes and replaced notes take effect without moving the sample position.',
 ['inputs', 'histories'], HIST + ', all note times',
 'Positions drift or skip only for particular tempos, rates and times far into a piece.',
 [N + 'sequencer/seq.rs', N + 'sequencer/speed.rs'], [('sample position modulo bar', N + 'sequencer/seq.rs')], ['output buffers after a block'],
 level='other', note=NOTE + 'up to 3 notes (bounded) at arbitrary times; bars of at least one sample; clock below 2^60 samples.')
prop('C12', 'Random choice and arrangement stay within what was given',
 'A random choice outputs one entry of its list per block, the same on every sample, the same sequence for equal seeds, and every entry sooner or later. An arrangement passes on, for each part in turn, the part\'s signal for its number of bars at the current tempo and starts over after the last. Lists and part lengths changed by message apply from then on, a changed length starting the arrangement over.',
 ['inputs', 'histories'], HIST + ', seeds', 'Membership and timing must hold for all seeds, lists, tempos and positions.',
 [N + 'sequencer/choose.rs', N + 'sequencer/arrange.rs'], [('seeded generator', N + 'sequencer/choose.rs'), ('bar counter', N + 'sequencer/arrange.rs')], ['output buffers after a block'],
 level='other', note=NOTE + 'lists of up to 4 entries and up to 3 parts (bounded); that every entry appears is checked for 4 seeds over 120 blocks (bounded).')
prop('C13', 'Recordings and notes sound in full, at pitch, and mixed',
 'Each positive input sample starts the recording at that playback ratio, each event of a sample pattern starts its recording at its time in the span, and each note of a pattern or message synth sounds as a saw of its pitch with linear attack and decay; all running voices are added up and each ends by itself. Recordings are read with linear interpolation from first to last frame, corrected for their sample rate, a mono one to both sides and a stereo one side by side. Tempo changes, new patterns and replaced recordings apply from the next block.',
 ['inputs', 'histories'], 'all recording contents over enumerated lengths, rates, trigger plans and patterns',
 'No sampler or synth is tested; overlaps, ends and rates interact.',
 [N + 'sampling/sampler.rs', N + 'sampling/psampler.rs', N + 'synth/pattern_synth.rs', N + 'synth/msgsynth.rs'], [('voice list', N + 'sampling/sampler.rs')],
 ['output buffers after a block'], level='model_checking', note='Bounded: runs of 5 to 9 blocks of 2 samples over enumerated plans, symbolic recording contents; longer random runs natively.')
prop('C14', 'Point curves are straight lines between their points',
 'A curve starts at zero unless its first point is at the beginning, joins its points by straight lines at their times in bars (scaled by the span at the current tempo) plus offsets in seconds or milliseconds, and holds the last value. A looping curve repeats every span, joining the last point to the first. A changed tempo, span, point list or loop setting applies from the next sample, the latter three starting the curve over.',
 ['inputs', 'histories'], HIST + ', all point times and values', 'Segment boundaries and the wrap of the loop need all positions and tempos.',
 [N + 'signal/points.rs'], [('segment search', N + 'signal/points.rs')], ['output buffers after a block'],
 level='other', note=NOTE + 'up to 3 points (bounded) at arbitrary increasing times; equality is of the real-valued formulas, rounding aside.')
prop('C16', 'A program sounds like its graph',
 'The output of a program is the sum of its chains whose names do not begin with a tilde, each chain being its nodes connected one after another. Every reference connects the end of the named chain to the node that refers to it, behind the node\'s own predecessor and in the order written, wherever the named chain stands in the text; a reference ending in two dots stands for all chains beginning with the name. The live input is available under its reserved name, and hidden chains are heard only where referred to.',
 ['programs', 'inputs', 'histories'], PROGS, 'The tests render five small programs for one block.',
 ENG, [('chain and reference wiring', 'rs/main/src/lib.rs'), ('input order', 'rs/synth/src/context.rs')], ['engine output per block'], level='other', note=PNOTE)
prop('C17', 'A program that cannot be played changes nothing',
 'When a text is not a program, refers to a chain that does not exist, uses a recording that is not loaded or asks for a node the engine cannot play, the update reports an error and playing goes on sample for sample as if it had not been tried. A later valid update works as if the failed one had never happened.',
 ['programs', 'inputs', 'histories'], PROGS + ' before, the failing texts and the program after', 'No test continues after a failed update.',
 ENG, [('validation before change', 'rs/main/src/lib.rs'), ('clean up', 'rs/main/src/lib.rs')], ['result of the update', 'engine output per block after it'], level='other', note=PNOTE)
prop('C18', 'Editing a running program keeps what is kept',
 'When a program replaces a running one, nodes written the same and in the same order in a chain of the same name keep sounding from where they are, with their state; changed and added nodes start fresh, and removed nodes and chains are no longer heard. Connections and references are those of the new program alone. Loading the same program again changes nothing.',
 ['programs', 'inputs', 'histories'], PROGS + ' before, between and after two updates; edits for which it is unambiguous which nodes are kept',
 'State that survives an edit can only be seen by comparing all continuations of all histories.',
 ENG, [('difference of chains', 'rs/main/src/lib.rs'), ('rewiring', 'rs/main/src/lib.rs')], ['engine output per block before and after updates'], level='other', note=PNOTE)
prop('C19', 'Every kind of node means the same in a program as by hand',
 'Writing a node with its parameters in a program creates that node with just these parameters, at the engine\'s sample rate and tempo where it depends on them, on one channel or two as documented by its output. A parameter given as a reference is taken from the referenced signal. Notes of a sequence share the bar equally, and the notes written together share their part of it equally; point lists take times in bars, fractions of bars, seconds and milliseconds, a factor for the span, and an exclamation mark for looping.',
 ['programs', 'inputs', 'histories'], PROGS, 'Most kinds of node occur in no passing test at all.',
 ENG, [('node construction', 'rs/main/src/util.rs'), ('node parsing', 'rs/parser/src/nodes.rs')], ['engine output per block'], level='other',
 note=PNOTE + 'Nodes with long delay lines or voice lists: 5 blocks from the start.')
prop('C20', 'Control messages reach exactly the node they address',
 'A message naming a chain, a position in it, a parameter and a number sets that parameter of that node from the next block on and nothing else. Several messages separated by semicolons all apply in order, blanks do not matter. Messages to a chain or position that does not exist, or with parts missing, have no effect.',
 ['programs', 'inputs', 'histories'], PROGS + ' before and after the messages', 'No test sends a message to a running program.',
 ['rs/main/src/lib.rs', 'rs/synth/src/context.rs'], [('message parsing', 'rs/main/src/lib.rs')], ['engine output per block after the message'], level='other', note=PNOTE)
prop('C21', 'Sample rate, tempo and seed apply to what they should',
 'Nodes are created with the sample rate, tempo and seed in force when their program is loaded. A tempo change also reaches the nodes already playing; a changed sample rate or seed leaves these as they are and applies to nodes created later.',
 ['programs', 'inputs', 'histories', 'configurations'], PROGS + ', for enumerated settings', 'Tests use one setting throughout.',
 ['rs/main/src/lib.rs', 'rs/main/src/util.rs'], [('settings', 'rs/main/src/lib.rs')], ['engine output per block'], level='other', note=PNOTE)
prop('C22', 'After a reset the engine is as new',
 'After a reset the engine plays nothing of the old program, has forgotten the recordings, and uses the initial tempo and seed; only the sample rate stays. Whatever program is loaded then sounds as on a new engine with that sample rate, including the live input.',
 ['programs', 'inputs', 'histories'], PROGS + ' before and after the reset', 'No test resets an engine.',
 ['rs/main/src/lib.rs', 'rs/synth/src/context.rs'], [('reset', 'rs/main/src/lib.rs')], ['engine output per block after the reset'], level='other', note=PNOTE)
prop('C25', 'Layout does not matter and numbers mean what they say',
 'Blank lines, indentation, line breaks before a connecting arrow, commas and bars as blanks, comments, semicolons and the optional word for taking a reference do not change what a program means. Numbers with sign, fraction and exponent have their decimal value wherever a number is taken; malformed numbers are refused.',
 ['programs', 'inputs', 'histories'], PROGS, 'Two comments are tested.',
 ['rs/parser/src/glicol.pest', 'rs/parser/src/lib.rs', 'rs/parser/src/nodes.rs'], [('grammar', 'rs/parser/src/glicol.pest'), ('number conversion', 'rs/parser/src/nodes.rs')],
 ['result of the update', 'engine output per block'], level='other', note=PNOTE)
prop('C15', 'The audio context connects, tells and plays as asked',
 'A node added to an audio context has the number of channels asked for. Every way of connecting nodes (one pair, one pair at a given place among the inputs, a chain of nodes already there, a chain of new nodes) makes the one an input of the other and tells it so in the order asked for; the output of a block is, channel by channel, the sum of what is connected to the destination, mono sources counting on every channel. A message reaches the node it is sent to, or all nodes when sent to all, and after removing a node or a reset nothing of the removed is heard or told any more.',
 ['configurations', 'inputs', 'histories'], 'all sequences of two or three such operations on a context with three nodes of one, two and three channels, and all sample values',
 'Tests connect one straight chain; orders, repeated connections and removals do not occur.',
 ['rs/synth/src/context.rs', 'rs/synth/src/graph.rs', 'rs/synth/src/node/mod.rs'], [('connecting and telling', 'rs/synth/src/context.rs')],
 ['inputs, messages and order of process calls', 'output of a block'], level='other',
 note='Sequences of operations are enumerated (bounded; longer random ones natively), sample and message values are symbolic.')
prop('C23', 'The size of the blocks does not matter',
 'A program plays the same samples whatever the size of the blocks it is rendered in: two blocks of two samples give what one block of four gives, at every point of every history. This is so for sources, oscillators, envelopes, delays, filters with fixed cutoff, sequences, curves, arithmetic and mixing; only random choices, speed sources, values taken once per block by intent (cutoff signals) and feedback loops follow the blocks.',
 ['programs', 'inputs', 'histories', 'configurations'], PROGS + ', rendered in blocks of two and of four',
 'Tests compare single blocks of one size.', ENG + [N + 'mod.rs'], [('state carried between blocks', N + 'oscillator/sin_osc.rs'), ('rendering', 'rs/main/src/lib.rs')],
 ['engine output of two engines with different block sizes'], level='other', note=PNOTE)
prop('C24', 'Drums, small synths and reverberation are what their parts make',
 'The bass drum is a sine of 60 Hz plus 50 Hz times a percussive envelope of 0.01 and 0.1 s, under a second envelope of 0.003 s and its decay; the snare is a sine of 60 Hz plus 55 Hz times an envelope of 0.001 and 0.1 s, mixed with 0.3 of noise, under 0.001 s and its decay; the hi-hat is noise through a 15 kHz high-pass under 0.003 s and its decay. The saw, square and triangle synths are that oscillator at 261.63 Hz times the input under an envelope of their attack and decay, restarted by every positive input sample; messages change attack and decay from the next sample and nothing else. The reverberation outputs (1 - mix) of its input plus mix of what it puts out at full mix, with the mix last set.',
 ['inputs', 'histories'], HIST, 'None of these nodes occurs in a passing test.',
 [N + 'compound/bd.rs', N + 'compound/sn.rs', N + 'compound/hh.rs', N + 'compound/sawsynth.rs', N + 'compound/squsynth.rs', N + 'compound/trisynth.rs', N + 'effect/plate.rs'],
 [('inner graph', N + 'compound/bd.rs')], ['output buffers after a block'], level='proof',
 note=NOTE + 'times in 0..100 s; the parts are compared with the same nodes wired by hand (their own behaviour is C02 to C10); the mix of the reverberation is checked for two blocks symbolically (bounded) and for long random runs natively.')
prop('C26', 'Recordings are found under their names',
 'A sampler or sample pattern in a program plays the recording last loaded under the name it uses, with its number of channels and its rate. Loading a recording does not disturb what already plays, and nodes created afterwards use the new one. A name under which nothing was loaded is refused.',
 ['programs', 'inputs', 'histories'], 'all contents of the recordings, for each enumerated program, format and moment of loading', 'No test plays a recording.',
 ['rs/main/src/lib.rs', 'rs/main/src/util.rs', N + 'sampling/sampler.rs', N + 'sampling/psampler.rs'], [('sample dictionary', 'rs/main/src/lib.rs')],
 ['result of the update', 'engine output per block'], level='model_checking', note='Bounded: 4 programs, up to 12 blocks of 2 samples, 3 formats; contents symbolic.')
prop('C27', 'Expressions are evaluated per sample, scripts per block',
 'An expression node outputs at each sample the value of its last expression, computed from the input sample, the number of samples so far, the sample rate and its variables, which the sentences before it set in turn and which keep their values from sample to sample. A script node runs its script once per block and outputs the list it returns, with the input samples of the block, the sample rate and its variables, which are kept from block to block. A new text takes over with the variables as they are; a text that cannot be compiled is ignored, and one that fails when run leaves the output as it was.',
 ['inputs', 'programs', 'histories'], 'all input samples, for each enumerated text and change of text', 'No test uses these nodes.',
 [N + 'dynamic/eval.rs', N + 'dynamic/meta.rs'], [('compiled sentences', N + 'dynamic/eval.rs'), ('script scope', N + 'dynamic/meta.rs')],
 ['output buffers after a block'], level='model_checking', note='Bounded: 8 expressions and 5 scripts, runs of 3 to 4 blocks of 2 samples with one change of text; input samples symbolic. The interpreters (fasteval, rhai) are executed as they are, not assumed.')
prop('C28', 'The browser interface hands over programs, sound and errors intact',
 'The functions offered to the browser act on one engine: what is rendered is that engine\'s block, first the left half then the right half of the size asked for, and tempo, sample rate, seed, messages, recordings and reset reach it. Loading a program returns 256 bytes that are all zero on success. On failure the first byte is 1 for a text that is not a program, 2 for a missing recording, 3 for a missing reference, and from the third byte on follows the message (with the position of a syntax error), cut to what fits.',
 ['programs', 'inputs', 'histories'], 'the enumerated programs, faulty texts, sizes and settings; all contents of recordings', 'The interface has no tests.',
 ['rs/wasm/src/lib.rs', 'rs/main/src/lib.rs'], [('result buffer', 'rs/wasm/src/lib.rs'), ('block copy', 'rs/wasm/src/lib.rs')],
 ['results of the interface functions'], level='model_checking', note='Bounded: enumerated programs and texts, blocks of 128 samples. The source file of the interface is compiled as a library by a manifest of our own; the JavaScript glue generated by wasm-bindgen and the JavaScript side are outside.')
