package spec

// Scenario is a library run: operations through the exported API.
type Scenario struct {
	Inputs  [][]byte `json:"inputs"`
	Setup   []Op     `json:"setup,omitempty"`   // before the threads start, on the main goroutine
	Threads [][]Op   `json:"threads,omitempty"` // concurrent
	Quiesce bool     `json:"quiesce,omitempty"` // afterwards, look for goroutines left behind
	C4      bool     `json:"c4,omitempty"`      // middle C is C4, as the calling program chose
	Log     int      `json:"log,omitempty"`     // the calling program's log level; 0: not set
}

// Op is one library operation.
//
//	decode      Inputs[In] -> file slot Slot
//	asmtext, asmjson  Inputs[In] -> bytes
//	mfr         LoadManufacturers(Inputs[In])
//	newdis      -> disassembler slot Slot
//	templates   LoadTemplates(Inputs[In]) on disassembler Slot
//	print, printmthd, printmtrk   file File with disassembler Slot
//	encode, export, notes, notesjson, click, validate, transpose(N)   file File
//	image       JSON image + binary image of file File (observation only)
//
// Slots with Shared refer to the table filled by Setup.
type Op struct {
	Op     string  `json:"op"`
	In     int     `json:"in,omitempty"`
	Slot   int     `json:"slot,omitempty"`
	File   int     `json:"file,omitempty"`
	N      int     `json:"n,omitempty"`
	Shared bool    `json:"shared,omitempty"`
	R      *Stream `json:"r,omitempty"`
	W      *Stream `json:"w,omitempty"`
	Obj    int     `json:"obj,omitempty"` // reuse one decoder/assembler object under this number (0: new)
}

// Stream is how a simulated reader delivers, or a simulated writer accepts.
type Stream struct {
	Frags   []int  `json:"frags,omitempty"`    // sizes of successive transfers, cyclic; 0: an empty transfer
	WithEOF bool   `json:"with_eof,omitempty"` // the last data comes together with EOF
	Cut     int    `json:"cut,omitempty"`      // >0: stream ends (EOF) after Cut-1 bytes
	Fail    int    `json:"fail,omitempty"`     // >0: fails after Fail-1 bytes
	Err     string `json:"err,omitempty"`      // the error's text (some name an error of the standard library, see libsim)
	With    bool   `json:"with,omitempty"`     // the error is returned together with data
	Yield   bool   `json:"yield,omitempty"`    // transfers are scheduling points
	Block   bool   `json:"block,omitempty"`    // transfers take simulated time
	Pace    int64  `json:"pace,omitempty"`     // that much (nanoseconds); 0: a few milliseconds
	Naps    int    `json:"-"`
	Scratch bool   `json:"scratch,omitempty"` // reader: uses the rest of the buffer as scratch space, as io.Reader allows
	Kind    string `json:"kind,omitempty"`    // reader: what it is (see libsim); empty: a plain io.Reader
	Once    bool   `json:"once,omitempty"`    // writer: only the one transfer fails, later ones succeed
}

// OpResult is what one operation gave.
type OpResult struct {
	T     int    `json:"t"` // thread, -1 setup
	I     int    `json:"i"`
	Err   string `json:"err,omitempty"`
	Data  []byte `json:"data,omitempty"`
	Wrote int    `json:"wrote,omitempty"`
	Fired bool   `json:"fired,omitempty"` // the stream's failure was delivered
	Panic string `json:"panic,omitempty"`
	Seq   [2]int `json:"seq"` // event numbers of invocation and return
}

// Left is a goroutine still alive after quiescence.
type Left struct {
	Stack string `json:"stack"`
}
