//go:build go1.25

package harness

import (
	"crypto/tls"
	"crypto/x509"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
)

const pemDir = Home + "/pem"

// untrusted are the ways in which a secure connection must not come about.
var untrusted = []string{"wrong-ca", "no-ca", "name", "server-name", "expired", "self-signed", "no-client-cert", "wrong-client-cert",
	"server-plain", "client-plain", "insecure-no-client-cert"}

// unusable are credentials that cannot be used at all.
var unusable = []string{"no-such-ca", "no-such-cert", "no-such-key", "mismatch", "garbage-ca", "garbage-cert", "garbage-key", "empty-ca", "dir-ca",
	"cert-only", "key-only", "insecure-ca", "insecure-cert", "insecure-name", "ca-no-tls", "cert-no-tls", "insecure-no-tls", "name-no-tls", "swapped"}

func keyPair(name string) tls.Certificate {
	c, err := tls.X509KeyPair([]byte(pems[name+".crt"]), []byte(pems[name+".key"]))
	if err != nil {
		panic(err)
	}
	return c
}

// secure makes the call one over TLS, with what is wrong with it (or nothing).
func (k *gcase) secure(wrong string) {
	c, l := k.c, k.g.L
	more := k.g.More
	k.g.More = func(s *Sim) {
		if more != nil {
			more(s)
		}
		files := map[string]string{}
		for name, text := range pems {
			files[name] = text
		}
		files["garbage.crt"], files["garbage.key"], files["empty.crt"] = "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", "nonsense\n", ""
		s.Write(pemDir, files)
		s.K.FS.MkdirAll(pemDir + "/dir")
	}
	conf := &tls.Config{Certificates: []tls.Certificate{keyPair("srv")}}
	if c.P("tls12", 0.3) {
		conf.MaxVersion = tls.VersionTLS12
	}
	f := func(name string) string { return pemDir + "/" + name }
	args := []string{"--tls"}
	ca, cert, key, name := f("ca.crt"), "", "", ""
	insecure := false
	if c.P("mutual", 0.4) || wrong == "no-client-cert" || wrong == "insecure-no-client-cert" || wrong == "wrong-client-cert" || wrong == "mismatch" || wrong == "swapped" {
		pool := x509.NewCertPool()
		pool.AppendCertsFromPEM([]byte(pems["ca2.crt"]))
		conf.ClientCAs, conf.ClientAuth = pool, tls.RequireAndVerifyClientCert
		cert, key = f("user.crt"), f("user.key")
	} else if wrong == "" && c.P("insecure", 0.25) {
		// the server may be anyone
		insecure = true
		ca = ""
		conf.Certificates[0] = keyPair(c.Pick("anyone", "srv", "self", "old", "alien", "other"))
	}
	if !insecure && c.P("othername", 0.3) && wrong != "name" && wrong != "server-name" {
		conf.Certificates[0] = keyPair("other")
		name = "other.example"
	}
	switch wrong {
	case "wrong-ca":
		ca = f("ca2.crt")
	case "no-ca":
		ca = ""
	case "name":
		conf.Certificates[0] = keyPair("other")
	case "server-name":
		name = c.Pick("wrongname", "other.example", "sr", "srv.example", "10.0.0.1")
	case "expired":
		conf.Certificates[0], name = keyPair("old"), ""
	case "self-signed":
		conf.Certificates[0], name = keyPair("self"), ""
	case "no-client-cert":
		cert, key = "", ""
	case "insecure-no-client-cert":
		ca, cert, key, name, insecure = "", "", "", "", true
	case "wrong-client-cert":
		cert, key = f("user2.crt"), f("user2.key")
	case "no-such-ca":
		ca = f("nosuch.crt")
	case "no-such-cert":
		cert, key = f("nosuch.crt"), f("user.key")
	case "no-such-key":
		cert, key = f("user.crt"), f("nosuch.key")
	case "mismatch":
		key = f(c.Pick("key", "user2.key", "srv.key", "ca.key"))
	case "swapped":
		cert, key = key, cert
	case "garbage-ca":
		ca = f(c.Pick("garbage", "garbage.key", "ca.key"))
	case "empty-ca":
		ca = f("empty.crt")
	case "dir-ca":
		ca = f("dir")
	case "garbage-cert":
		cert, key = f("garbage.crt"), f("user.key")
	case "garbage-key":
		cert, key = f("user.crt"), f("garbage.key")
	case "cert-only":
		cert, key = f("user.crt"), ""
	case "key-only":
		cert, key = "", f("user.key")
	case "insecure-ca":
		insecure, cert, key, name = true, "", "", ""
	case "insecure-cert":
		insecure, ca, cert, key, name = true, "", f("user.crt"), f("user.key"), ""
	case "insecure-name":
		insecure, ca, cert, key, name = true, "", "", "", "srv"
	case "ca-no-tls":
		args, cert, key, name = nil, "", "", ""
	case "cert-no-tls":
		args, ca, cert, key, name = nil, "", f("user.crt"), f("user.key"), ""
	case "insecure-no-tls":
		args, ca, cert, key, name, insecure = nil, "", "", "", "", true
	case "name-no-tls":
		args, ca, cert, key, name = nil, "", "", "", "srv"
	case "client-plain":
		args, ca, cert, key, name = nil, "", "", "", ""
	}
	for _, x := range []struct{ flag, v string }{{"--cacert", ca}, {"--cert", cert}, {"--key", key}, {"--server-name", name}} {
		if x.v != "" {
			args = append(args, x.flag, x.v)
		}
	}
	if insecure {
		args = append(args, "--insecure")
	}
	l.Args = append(l.Args, args...)
	k.tls = []grpc.ServerOption{grpc.Creds(credentials.NewTLS(conf))}
	if wrong == "server-plain" || strings.HasSuffix(wrong, "-no-tls") && c.P("serverplain", 0.7) {
		k.tls = []grpc.ServerOption{}
	}
}

func init() {
	register("C11", "trust", 1, func(c *Ctx) {
		// the connection cannot be as secure as the user asked for
		k := c.gcall()
		k.input(0)
		if len(k.inputs) > 1 && !k.inStream() {
			return
		}
		k.script()
		wrong := untrusted[c.N("untrusted", len(untrusted))]
		odd := c.P("odd", 0.4)
		if odd {
			wrong = unusable[c.N("unusable", len(unusable))]
		}
		k.secure(wrong)
		ct := c.timeoutFlag("connect-timeout", "10s", k.g.L, "3s", "25s")
		k.finish()
		s := k.g.Machine("a", quietNet(c.Swarm("a")))
		r := k.g.L.Start(s, RunOpts{Stdin: k.source()})
		s.Run()
		dial, _, dialed, _ := began(s, r)
		why := wrong + ": " + js(k.g.L.Args)
		switch {
		case !r.P.Exited():
			c.Violate("C11.trust", "%s: it never ended: %s", why, r.Desc())
		case len(k.srv.Calls) > 0:
			c.Violate("C11.trust", "%s: a call was made: %s", why, k.story())
		case r.OK():
			c.Violate("C11.trust", "%s: %s", why, r.Desc())
		case len(r.Stdout()) == 0:
			c.Violate("C11.trust", "%s: exit %d without a word", why, r.Code())
		case odd && dialed:
			c.Violate("C11.trust", "%s: it connected with unusable credentials", why)
		case dialed && r.P.Ended > dial+ct+61*time.Second:
			c.Violate("C11.trust", "%s: it gave up at %s only", why, r.P.Ended)
		default:
			c.Hit("c11.untrusted_" + wrong)
		}
	})
}
