COMMON = "All obligations generated from the current source of the functions under contract are discharged for all inputs and iterations, no bound. Trusted: the verifier /verif/dv itself, go/ssa, z3/cvc5, the assumed contracts of library functions listed in the evidence; float arithmetic is treated as real arithmetic, int as mathematical integers with explicit wrap-around where the code converts; goroutine bodies are verified sequentially. "
CLAIMED = {
 "C01": "The DFT itself (go-dsp) is assumed by contract; proved is everything around it.",
 "C02": "Round trip, tiling and order are lemmas over the postconditions.",
 "C11": "The imported Morse table is evaluated exhaustively on every run.", "C12": "", "C13": "",
 "C27": "The Goertzel recurrence is matched in real arithmetic; operations posted to the demodulator are assumed to be its setters and getters (their contracts are verified).",
 "C07": "", "C08": "The random choice of the first bin to look at is arbitrary within its range; timestamps are compared by an uninterpreted difference.",
 "C14": "The matches of the regular expression are uninterpreted.",
 "C15": "What the callsign library and the regular expression recognise is uninterpreted; texts and callsigns are strings. The retrieval of the write timeout by a ticker goroutine is not covered.",
 "C16": "What the databases contain is uninterpreted.",
 "C09": "", "C10": "Posting an operation to the goroutine of the text processor is verified as its execution.", "C26": "",
 "C28": "Operations posted to the goroutine of the receiver are verified as executed at once.",
 "C03": "", "C04": "", "C05": "", "C06": "",
 "C19": "md5 is assumed to map different texts to different values; the difference of timestamps is uninterpreted. The frequencies of the callers are not negative.",
 "C20": "What fmt writes for a verb and its width is uninterpreted, so the layout is proved as the composition of the formatted parts; the text of a time is uninterpreted.",
 "C21": "Interleavings of the goroutines of the connections are not modelled: a connection is open or closed for a whole iteration of the server.",
 "C22": "",
 "C17": "What strings.Split, strconv.Atoi and url.QueryUnescape make of a text is uninterpreted.",
 "C18": "Whether a channel can take data is an oracle of the moment; the edge width is proved up to the rounding of single precision.",
 "C25": "Name resolution (net.ResolveTCPAddr), net.JoinHostPort and LastIndexByte are library contracts.",
 "C23": "The encoding of the frames on their way (gRPC, protocol buffers) is assumed to keep them; a value is compared in the precision of float arithmetic treated as real.",
 "C24": "A registered stream is assumed to be new, which getFrameStream ensures; whether a client can take a frame is an oracle of its channel, so all combinations are covered.",
 "C29": "The operations posted to the goroutine of the receiver are assumed to have the effects of the setters, which are verified as executed at once; the incoming blocks are assumed to have the size that IQData lets pass; the spectrum, noise floor and peaks are those of the contracts of dsp (C03, C04).",
 "C30": "Operations posted to the goroutine of the TCI process are verified as executed at once, and that they are executed is a contract of its loop; commands to the device are events.",
}
