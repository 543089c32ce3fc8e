package props

// All is the table of properties.
var All = []*Prop{
	{ID: "C01", MaxSteps: 100000000, Setup: setupC01, Quick: 400000, Thorough: 8000000,
		Rule: "a run is one simulation: 1-3 links, 1-2 senders each, 1-4 generated PDUs per sender, drawn segmentation, delays, short reads, resets; non-trivial: at least two PDUs were sent; distinct: different hash of the schedule and of the observed events"},
	{ID: "C02", MaxSteps: 100000000, Setup: setupC02, Quick: 400000, Thorough: 8000000,
		Rule: "as C01 with an independent RFC 2741 implementation on one end of each link; non-trivial: at least two PDUs were sent; distinct: different hash of schedule and events"},
	{ID: "C03", MaxSteps: 100000000, Setup: setupC03, Quick: 600000, Thorough: 9600000,
		Rule: "a run sends 2-8 frames over 1-2 links, most of them damaged, lost, doubled or swapped; every header and payload decoding is judged by the reference; non-trivial: at least one frame was damaged; distinct: different hash of schedule and events"},
	{ID: "C04", MaxSteps: 100000000, Setup: setupC04, Quick: 240000, Thorough: 6400000,
		Rule: "a run feeds 1-3 receivers with 2-6 damaged, truncated or noise frames each and measures steps and bytes allocated per call; non-trivial: at least one frame was damaged; distinct: different hash of schedule and events"},
	{ID: "C05", MaxSteps: 100000000, Setup: setupC05, Quick: 400000, Thorough: 6400000,
		Rule: "a run is 1-2 conversations of 3-9 requests of which some have a damaged payload, with ParseError replies on the way back; non-trivial: at least one frame was damaged; distinct: different hash of schedule and events"},
	{ID: "C06", MaxSteps: 100000000, Setup: setupC06, Quick: 120000, Thorough: 3200000,
		Rule: "a run has 1-3 tasks that give valid, damaged and misused inputs to each function and to its debug variant, with a logger that lets others run; non-trivial: at least two inputs; distinct: different hash of schedule and events"},
	{ID: "C07", MaxSteps: 100000000, Setup: setupC07, Quick: 200000, Thorough: 4800000,
		Rule: "a run has 1-3 tasks that encode and decode 1-4 PDUs each in reused buffers, change everything that is theirs, and compare everything they hold; distinct: different hash of schedule and events"},
	{ID: "C08", MaxSteps: 100000000, Setup: setupC08, Quick: 400000, Thorough: 4800000, QuickRace: 40000, ThoroughRace: 300000,
		Rule: "a run has 2-5 tasks with 1-4 calls each on shared and own inputs, preempted between statements of the library; answers are compared with those of the same calls made alone; non-trivial: at least three calls; distinct: different hash of schedule and events"},
	{ID: "C09", MaxSteps: 100000000, Setup: setupC09, Quick: 300000, Thorough: 6400000,
		Rule: "a run offers 2-7 PDUs per link to the encoder, two thirds of them misused, and sends what it accepts to a receiver; non-trivial: at least one misuse; distinct: different hash of schedule and events"},
	{ID: "C10", MaxSteps: 100000000, Setup: setupC10, Quick: 600000, Thorough: 12000000, QuickRace: 48000, ThoroughRace: 800000,
		Rule: "a run has 2-4 tasks with 1-5 scripted operations each on one tree, preempted between statements of the library; the history is checked for linearizability; non-trivial: operations of different tasks overlapped; distinct: different hash of schedule and events"},
	{ID: "C11", MaxSteps: 100000000, Setup: setupC11, Quick: 700000, Thorough: 12000000,
		Rule: "a run has 1-2 walkers and 0-3 tasks that add and remove other nodes; non-trivial: at least one such task; distinct: different hash of schedule and events"},
	{ID: "C12", MaxSteps: 100000000, Setup: setupC12, Quick: 800000, Thorough: 12000000,
		Rule: "a run has 3-7 tasks with scripted operations, visitors that sleep, panic or end their goroutine, and a latecomer; distinct: different hash of schedule and events"},
	{ID: "C13", MaxSteps: 100000000, Setup: setupC13, Quick: 600000, Thorough: 12000000,
		Rule: "a run has 2-4 tasks with additions, removals and snapshots whose visitors yield, sleep, panic, keep or change the identifiers; non-trivial: a snapshot was taken and operations overlapped; distinct: different hash of schedule and events"},
	{ID: "C14", MaxSteps: 100000000, Setup: setupC14, Quick: 700000, Thorough: 12000000,
		Rule: "a run has 2-4 tasks that add, look up and remove their own nodes below a shared parent; non-trivial: at least two nodes; distinct: different hash of schedule and events"},
	{ID: "C15", MaxSteps: 100000000, Setup: setupC15, Quick: 240000, Thorough: 2400000,
		Rule: "a run is a master with 1-2 walkers and some setters, a subagent with 1-8 variables, an application that adds and removes others, and up to 25 lost, doubled or damaged frames, 3 resets or crashes; non-trivial: there were faults or changes to the tree; distinct: different hash of schedule and events"},
	{ID: "C16", MaxSteps: 100000000, Setup: setupC16, Quick: 200000, Thorough: 3000000,
		Rule: "a run has 2-5 tasks that make 1-3 Dbg calls each, with valid and damaged input, own and shared logs, some of them slow; non-trivial: two calls or more and some input that is not valid; distinct: different hash of schedule and events"},
	{ID: "C17", MaxSteps: 1000000000, Setup: setupC17, Quick: 400, Thorough: 12000,
		Rule: "a run is a long history: four series of 900 to 2300 calls of codec and tree with ever new content, faults in between, or a tree that gets 3000 to 6500 nodes and loses them again; the memory in use is measured after each; distinct: different hash of schedule and events"},
}

// Find returns the property with the given id, or nil.
func Find(id string) *Prop {
	for _, p := range All {
		if p.ID == id {
			return p
		}
	}
	return nil
}
