package main

import "time"

// Plan is everything one simulated run does apart from scheduling decisions.
// It is generated from a seed, stored in replay files and shrunk item by item.
type Plan struct {
	Profile string     `json:"profile"`
	Seed    uint64     `json:"seed"`
	Cfg     Cfg        `json:"cfg"`
	Init    World0     `json:"init"`
	Events  []Event    `json:"events"`
	Faults  []Fault    `json:"faults"`
	RTs     []RTSpec   `json:"role_tokens"`
	ATs     []ATSpec   `json:"access_tokens"`
	Certs   []CertSpec `json:"certs"`
	Ops     []Op       `json:"ops"`
	Twin    *TwinPlan  `json:"twin,omitempty"`
	RT      *RTPlan    `json:"round_tripper,omitempty"`
	Quiet   int64      `json:"quiet"` // ns: no fault, change or stall after this
	End     int64      `json:"end"`
}

// Cfg is the authorizer's configuration and the behaviour of the servers.
type Cfg struct {
	Domains    []string `json:"domains"`
	SysAuth    string   `json:"sys_auth"`
	CacheExp   time.Duration
	PolPeriod  time.Duration
	PolMargin  time.Duration
	PolPurge   time.Duration
	PolRetry   time.Duration
	PolTries   int
	PubPeriod  time.Duration
	PubRetry   time.Duration
	PubETag    time.Duration
	PubPurge   time.Duration
	JwkPeriod  time.Duration
	JwkRetry   time.Duration
	JwkURLs    []string
	JwkOwnIn   bool // the server's own JWKS URL is listed among JwkURLs
	Timeout    time.Duration
	NoPolicy   bool
	NoPubkey   bool
	NoJwk      bool
	RT, AT, RC bool
	RTHeader   string
	RCPrefix   string
	MTLS       bool
	Backdate   time.Duration
	Offset     time.Duration
	VerifyCID  bool
	CIDs       map[string][]string
	Prefix     string
	Rules      map[string][]RuleSpec
	Skew       time.Duration // client wall clock minus server clock at start
	PolLife    time.Duration // life of an issued policy document
	Reissue    time.Duration // a document with less than this left is re-issued when asked for
	ETagMode   string        // content, issue, none
	LatMin     time.Duration
	LatMax     time.Duration
	Chunk      int  // body bytes per Read, 0: all
	Log        bool // debug log on and scanned
	ExpRT      bool // client.ExponentialRoundTripper in the transport chain
	InitTries  int
	InitCancel int64 // ns after the start of the first Init at which its context is cancelled, 0: never
	StartFirst bool  // Start without Init
	SlowDrain  time.Duration
	AltSpell   bool
}

// RuleSpec is one translation rule.
type RuleSpec struct{ Method, Path, Action, Resource string }

// World0 is the servers' initial state.
type World0 struct {
	Zts    []PubKey            `json:"zts"`
	Zms    []PubKey            `json:"zms"`
	ZtsSig PubKey              `json:"zts_signer"`
	ZmsSig PubKey              `json:"zms_signer"`
	Jwks   [][]PubKey          `json:"jwks"` // 0: the server's own set
	Docs   map[string]*DocSpec `json:"docs"`
}

// PubKey is a published key: an identifier and key material.
type PubKey struct {
	ID  string `json:"id"`
	Key int    `json:"key"`
}

// DocSpec is the content of one policy document.
type DocSpec struct {
	Policies [][]Assert `json:"policies"`
}

// Assert is one assertion; Role and Resource carry their domain.
type Assert struct {
	Role, Action, Resource, Effect string
}

// Event changes the world at a time, or when the Nth request to a target arrives.
type Event struct {
	At   int64    `json:"at"`
	On   string   `json:"on,omitempty"` // target; fires at that target's Nth request instead of At
	Nth  int      `json:"nth,omitempty"`
	Kind string   `json:"kind"` // doc, zts, zms, ztssig, zmssig, jwks, wall, restart
	Dom  string   `json:"dom,omitempty"`
	Doc  *DocSpec `json:"doc,omitempty"`
	Keys []PubKey `json:"keys,omitempty"`
	Src  int      `json:"src,omitempty"`
	D    int64    `json:"d,omitempty"`
}

// Fault makes requests to Target in [From, To) misbehave with probability P per cent.
type Fault struct {
	From   int64  `json:"from"`
	To     int64  `json:"to"`
	Target string `json:"target"` // pol:<domain>, zts, zms, jwk:<n>, or a prefix ending in *
	Kind   string `json:"kind"`
	P      int    `json:"p"`
	Max    int    `json:"max,omitempty"` // at most this many injections
	Arg    int64  `json:"arg,omitempty"`
	Body   bool   `json:"body,omitempty"`
}

// RTSpec describes a role token.
type RTSpec struct {
	Dom   string
	Roles []string
	Name  string
	Iat   int64 // seconds since the epoch of the run
	Exp   int64
	KeyID string
	Key   int
	Mut   string // alteration after signing
	Arg   int
}

// ATSpec describes an access token.
type ATSpec struct {
	Aud   string
	Scp   []string
	Sub   string
	Cid   string
	Iat   int64
	Exp   int64 // 0: none
	Nbf   int64 // 0: none
	Kid   string
	Key   int
	Jku   string // "": none
	Thumb int    // index of the certificate it is bound to, -1: none
	Proxy []string
	Mut   string
	Arg   int
}

// CertSpec describes a client certificate.
type CertSpec struct {
	CN        string
	Issuer    string
	URIs      []string
	NotBefore int64
	Serial    int
}

// Op is one call of the workload.
type Op struct {
	At     int64  `json:"at"`
	On     string `json:"on,omitempty"`  // fires when the Nth response of this target has been delivered
	Nth    int    `json:"nth,omitempty"` //
	Kind   string `json:"kind"`          // rt, at, rc, http, dump, tr
	Verify bool   `json:"verify,omitempty"`
	RT     int    `json:"rt"` // index, -1: none
	AT     int    `json:"atok"`
	Certs  []int  `json:"certs,omitempty"`
	Act    string `json:"act"`
	Res    string `json:"res"`
	Query  string `json:"query,omitempty"`
	Dom    string `json:"dom,omitempty"`
	Rep    int    `json:"rep,omitempty"`
	Gap    int64  `json:"gap,omitempty"`
	Cross  bool   `json:"cross,omitempty"` // each token is presented as if it were of the other kind
	Hdr    string `json:"hdr,omitempty"`   // how the tokens travel: "", lower, basic, other, form
	Ctx    string `json:"ctx,omitempty"`   // "", cancelled, cancel (cancelled concurrently)
}

// RTPlan drives client.ExponentialRoundTripper on its own (property C18).
type RTPlan struct {
	Factor  float64
	Count   int
	MaxTime time.Duration
	Calls   []RTCall
}

// RTCall is one request with the answers the inner transport gives to its attempts.
type RTCall struct {
	At      int64
	Answers []RTAnswer
	Cancel  int64
}

// RTAnswer is the outcome of one attempt.
type RTAnswer struct {
	Delay   time.Duration
	Err     string // "", temp, perm
	Status  int
	Body    string
	ReadErr bool
}

// tries is the number of repetitions of a failing policy request; the library
// takes 0 as "not set".
func (c *Cfg) tries() int {
	if c.PolTries == 0 {
		return 2
	}
	return c.PolTries
}
