// Package app is what an application does with the values the library returns.
// It is a package of its own because the race detector leaves out the accesses
// of package main, the simulator, but not these.
package app

import (
	"fmt"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// Principal is a copy of what a principal says.
type Principal struct {
	Name, Domain, ClientID string
	Roles, Auth            []string
	Iat, Exp               int64
	Access                 bool
}

// Read copies p.
func Read(p authorizerd.Principal) Principal {
	o := Principal{Name: p.Name(), Domain: p.Domain(), Iat: p.IssueTime(), Exp: p.ExpiryTime()}
	for _, r := range p.Roles() {
		o.Roles = append(o.Roles, r)
	}
	for _, r := range p.AuthorizedRoles() {
		o.Auth = append(o.Auth, r)
	}
	if x, ok := p.(authorizerd.OAuthAccessToken); ok {
		o.Access, o.ClientID = true, x.ClientID()
	}
	return o
}

// Assertion is a copy of what an assertion of the policy cache says.
type Assertion struct {
	Effect, Action, Resource, Domain string
}

// Assertions copies the assertions of every role of a policy cache.
func Assertions(m map[string]interface{}) map[string][]Assertion {
	out := make(map[string][]Assertion, len(m))
	for k, v := range m {
		l, ok := v.([]*policy.Assertion)
		if !ok {
			out[k] = []Assertion{{Effect: fmt.Sprintf("type %T", v)}}
			continue
		}
		o := make([]Assertion, 0, len(l))
		for _, x := range l {
			e := "allow"
			if x.Effect != nil {
				e = "deny"
			}
			o = append(o, Assertion{e, x.Action, x.Resource, x.ResourceDomain})
		}
		out[k] = o
	}
	return out
}
