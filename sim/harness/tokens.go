package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

func jsonInto(b []byte, v interface{}) {
	if err := json.Unmarshal(b, v); err != nil {
		panic(err)
	}
}

func flip(s string, i int) string {
	if len(s) == 0 {
		return s
	}
	i %= len(s)
	c := byte('A')
	if s[i] == 'A' {
		c = 'B'
	}
	return s[:i] + string(c) + s[i+1:]
}

// text is the role token as presented, with its alteration if any.
func (t *RTSpec) text() string {
	body := fmt.Sprintf("v=Z1;d=%s;r=%s;p=%s;h=host;a=%x;t=%d;e=%d;k=%s;i=10.0.0.1",
		t.Dom, strings.Join(t.Roles, ","), t.Name, t.Iat^0x55, baseUnix+t.Iat, baseUnix+t.Exp, t.KeyID)
	sig := ysign(t.Key, body)
	switch t.Mut {
	case "":
	case "nosig":
		return body
	case "emptysig":
		sig = ""
	case "flipsig":
		sig = flip(sig, 8+t.Arg%(len(sig)/2))
	case "flipbody":
		// altered after signing: expiry, role, domain or principal
		body = strings.Replace(body, ";p="+t.Name, ";p="+t.Name+"x", 1)
	case "role":
		body = strings.Replace(body, ";r=", ";r=admin,", 1)
	case "exp":
		body = strings.Replace(body, fmt.Sprintf(";e=%d", baseUnix+t.Exp), fmt.Sprintf(";e=%d", baseUnix+t.Exp+100000), 1)
	case "append": // a later field overrides an earlier one when parsed
		body += fmt.Sprintf(";e=%d", baseUnix+t.Exp+100000)
	case "prepend":
		body = "d=" + t.Dom + ";" + body
	case "evilkey": // signed by somebody else under the right key id
		sig = ysign(evilKey+t.Arg%4, body)
	case "trunc":
		s := body + ";s=" + sig
		return s[:len(s)*(10+t.Arg%80)/100]
	case "badexp":
		body = strings.Replace(body, fmt.Sprintf(";e=%d", baseUnix+t.Exp), ";e=never", 1)
		sig = ysign(t.Key, body)
	case "nokv":
		body += ";junk"
		sig = ysign(t.Key, body)
	case "sigtail":
		sig += ";x=1"
	case "empty":
		return ""
	case "garbage":
		return strings.Repeat(";s=", 1+t.Arg%4) + "\x00=;"
	case "nullexp": // no expiry at all: the zero time has passed
		body = strings.Replace(body, fmt.Sprintf(";e=%d", baseUnix+t.Exp), "", 1)
		sig = ysign(t.Key, body)
	case "semis":
		return body + strings.Repeat(";", 1+t.Arg%3) + ";s=" + sig
	case "semi0":
		return ";" + body + ";s=" + sig
	case "case":
		return strings.Replace(body, ";p="+t.Name, ";P="+t.Name, 1) + ";s=" + sig
	case "sigspace":
		return body + ";s= " + sig
	case "space":
		return " " + body + ";s=" + sig
	}
	return body + ";s=" + sig
}

func (t *ATSpec) text(h *run) string {
	alg := "ES256"
	if isRSA(t.Key) {
		alg = "RS256"
	}
	hd := map[string]interface{}{"typ": "at+jwt", "alg": alg, "kid": t.Kid}
	if t.Jku != "" {
		hd["jku"] = t.Jku
	}
	cl := map[string]interface{}{"sub": t.Sub, "aud": t.Aud, "iss": "https://zts.sim", "iat": baseUnix + t.Iat, "auth_time": baseUnix + t.Iat,
		"ver": 1, "scp": t.Scp, "uid": t.Sub, "client_id": t.Cid, "jti": fmt.Sprintf("%x", t.Iat^0x77)}
	if t.Exp != 0 {
		cl["exp"] = baseUnix + t.Exp
	}
	if t.Nbf != 0 {
		cl["nbf"] = baseUnix + t.Nbf
	}
	cnf := map[string]interface{}{}
	if t.Thumb >= 0 && t.Thumb < len(h.p.Certs) {
		cnf["x5t#S256"] = thumb(makeCert(&h.p.Certs[t.Thumb]))
	}
	if t.Proxy != nil {
		var l []interface{}
		for _, x := range t.Proxy {
			if strings.HasPrefix(x, "!") { // not a string
				l = append(l, json.RawMessage(x[1:]))
			} else {
				l = append(l, x)
			}
		}
		cnf["proxy-principals#spiffe"] = l
	}
	if len(cnf) > 0 {
		cl["cnf"] = cnf
	}
	key := t.Key
	switch t.Mut {
	case "evilkey":
		key = evilKey + t.Arg%4
		hd["alg"] = "ES256"
	case "none":
		hd["alg"] = "none"
	case "hs256":
		hd["alg"] = "HS256"
	case "nokid":
		delete(hd, "kid")
	case "kidnum":
		hd["kid"] = 7
	case "jkunum":
		hd["jku"] = 7
	case "jkunull":
		hd["jku"] = nil
	case "cnfnum":
		cl["cnf"] = map[string]interface{}{"x5t#S256": 7, "proxy-principals#spiffe": "x"}
	case "expstr":
		cl["exp"] = "tomorrow"
	case "algswap":
		if alg == "ES256" {
			hd["alg"] = "RS256"
		} else {
			hd["alg"] = "ES256"
		}
	}
	in := b64(mustJSON(hd)) + "." + b64(mustJSON(cl))
	sig := jwsSign(key, in)
	switch t.Mut {
	case "none":
		return in + "."
	case "flipsig":
		s := append([]byte(nil), sig...)
		s[t.Arg%len(s)] ^= 1 << uint(t.Arg%7)
		return in + "." + b64(s)
	case "claims":
		cl["scp"] = append([]string{"admin"}, t.Scp...)
		return b64(mustJSON(hd)) + "." + b64(mustJSON(cl)) + "." + b64(sig)
	case "exp":
		cl["exp"] = baseUnix + t.Exp + 100000
		return b64(mustJSON(hd)) + "." + b64(mustJSON(cl)) + "." + b64(sig)
	case "twoparts":
		return in
	case "trunc":
		s := in + "." + b64(sig)
		return s[:len(s)*(10+t.Arg%85)/100]
	case "empty":
		return ""
	case "garbage":
		return "a.b.c" + strings.Repeat(".", t.Arg%3)
	case "nullclaims":
		in = b64(mustJSON(hd)) + "." + b64([]byte("null"))
		return in + "." + b64(jwsSign(key, in))
	case "nullheader":
		in = b64([]byte("null")) + "." + b64(mustJSON(cl))
		return in + "." + b64(jwsSign(key, in))
	case "cnfnull":
		cl["cnf"] = nil
		in = b64(mustJSON(hd)) + "." + b64(mustJSON(cl))
		return in + "." + b64(jwsSign(key, in))
	}
	return in + "." + b64(sig)
}

// secret is the part of the presented credential that must never be logged.
func rtSecret(tok string) string {
	if i := strings.Index(tok, ";s="); i >= 0 {
		return tok[i+3:]
	}
	return ""
}

func atSecret(tok string) string {
	p := strings.Split(tok, ".")
	if len(p) == 3 {
		return p[2]
	}
	return ""
}
