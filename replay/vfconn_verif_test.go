package mint

// needs: vfrecord

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"io"
	"net"
	"reflect"
	"testing"
	"time"
)

type vfNetConn struct {
	vfConn
}

func (c *vfNetConn) Close() error                       { return nil }
func (c *vfNetConn) LocalAddr() net.Addr                { return nil }
func (c *vfNetConn) RemoteAddr() net.Addr               { return nil }
func (c *vfNetConn) SetDeadline(t time.Time) error      { return nil }
func (c *vfNetConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *vfNetConn) SetWriteDeadline(t time.Time) error { return nil }

var vfAlerts = []Alert{AlertCloseNotify, AlertUnexpectedMessage, AlertBadRecordMAC, AlertDecryptionFailed, AlertRecordOverflow, AlertHandshakeFailure,
	AlertBadCertificate, AlertIllegalParameter, AlertUnknownCA, AlertAccessDenied, AlertDecodeError, AlertDecryptError, AlertProtocolVersion,
	AlertInternalError, AlertMissingExtension, AlertNoRenegotiation, AlertNoApplicationProtocol, 90, 109, 116, 120}

func vfLevel(a Alert) byte {
	if a == AlertCloseNotify || a == AlertNoRenegotiation {
		return 1
	}
	return 2
}

func TestVfC23(t *testing.T) {
	v := vfStart(t, "every alert description, TLS/DTLS, clear and protected, connection and handshake layer; received alerts with every level/description and lengths 0..4")
	for rep := 0; rep < v.n(4) && !v.over(); rep++ {
		for _, a := range vfAlerts {
			for m := 0; m < 4; m++ {
				dtls, prot := m&1 != 0, m&2 != 0
				key, iv, seq := v.bytes(16), v.bytes(12), vfSeqs[v.rng.Intn(len(vfSeqs))]
				mk := func() (*vfNetConn, *DefaultRecordLayer) {
					c := &vfNetConn{}
					var r *DefaultRecordLayer
					if dtls {
						r = NewRecordLayerDTLS(c, DirectionWrite)
					} else {
						r = NewRecordLayerTLS(c, DirectionWrite)
					}
					r.SetVersion(tls12Version)
					if prot {
						if err := r.Rekey(EpochApplicationData, newAESGCM, vfKeySetOf(key, iv)); err != nil {
							panic(err)
						}
					}
					r.cipher.seq = seq
					return c, r
				}
				want := func() []byte {
					ver, s := uint16(tls12Version), seq
					if dtls {
						ver = 0xfefd
						if prot {
							s |= 3 << 48
						}
					}
					body := []byte{vfLevel(a), byte(a)}
					if prot {
						return vfSeal(vfGCM(key), iv, s, byte(RecordTypeApplicationData), ver, dtls, append(body, byte(RecordTypeAlert)))
					}
					return append(vfHdr(byte(RecordTypeAlert), ver, dtls, s, 2), body...)
				}()
				v.run(fmt.Sprintf("send alert %d dtls=%v protected=%v", a, dtls, prot), func() {
					nc, out := mk()
					c := &Conn{config: &Config{}, conn: nc, out: out}
					e := c.sendAlert(a)
					if !bytes.Equal(nc.out, want) {
						v.viol("conn-alert", "Conn.sendAlert(%d) dtls=%v protected=%v wrote %x, want %x", a, dtls, prot, nc.out, want)
					}
					if vfLevel(a) == 1 && e == nil {
						v.viol("conn-alert", "Conn.sendAlert(%d) reports nothing", a)
					}
					if a != AlertNoRenegotiation && a != AlertCloseNotify {
						nc, out := mk()
						h := &HandshakeLayer{conn: out, datagram: dtls}
						h.sendAlert(a)
						if !bytes.Equal(nc.out, want) {
							v.viol("handshake-alert", "HandshakeLayer.sendAlert(%d) dtls=%v protected=%v wrote %x, want %x", a, dtls, prot, nc.out, want)
						}
					}
				})
			}
		}
	}
	// received alerts
	for lvl := 0; lvl < 4; lvl++ {
		for d := 0; d < 256; d++ {
			for n := 0; n <= 4; n++ {
				if n != 2 && (d%37 != 0) || v.over() {
					continue
				}
				frag := append([]byte{byte(lvl), byte(d)}, 7, 7)[:n]
				v.run(fmt.Sprintf("received alert level=%d length=%d", lvl, n), func() {
					in := &vfNetConn{}
					in.in = append(vfHdr(byte(RecordTypeAlert), tls12Version, false, 0, n), frag...)
					outc := &vfNetConn{}
					rin, rout := NewRecordLayerTLS(in, DirectionRead), NewRecordLayerTLS(outc, DirectionWrite)
					c := &Conn{config: &Config{}, conn: outc, in: rin, out: rout, readBuffer: []byte("left")}
					err := c.consumeRecord()
					if string(c.readBuffer) != "left" {
						v.viol("received", "an alert %x changed the read buffer to %x", frag, c.readBuffer)
					}
					switch {
					case n != 2:
						if err == nil || len(outc.out) == 0 {
							v.viol("received", "malformed alert %x: error %v, answered %x", frag, err, outc.out)
						}
					case d == 0:
						if err == nil {
							v.viol("received", "close-notify %x not reported", frag)
						}
					case lvl == 1:
						if err != nil {
							v.viol("received", "warning %x: error %v", frag, err)
						}
					case lvl == 2:
						if err != Alert(d) {
							v.viol("received", "alert %x reported as %v", frag, err)
						}
					default:
						if err == nil || len(outc.out) == 0 {
							v.viol("received", "alert %x with unknown level: error %v, answered %x", frag, err, outc.out)
						}
					}
					in2 := &vfNetConn{}
					in2.in = append(vfHdr(byte(RecordTypeAlert), tls12Version, false, 0, n), frag...)
					h := NewHandshakeLayerTLS(&HandshakeContext{}, NewRecordLayerTLS(in2, DirectionRead))
					err = h.readRecord()
					if n >= 2 && err != Alert(d) || n < 2 && err == nil {
						v.viol("received", "handshake layer reports alert %x as %v", frag, err)
					}
				})
			}
		}
	}
	v.done()
}

type vfCookie struct{}

func (vfCookie) Generate(*Conn) ([]byte, error)       { return nil, nil }
func (vfCookie) Validate(*Conn, []byte) bool          { return false }
func (vfCookie) NewToken([]byte) ([]byte, error)      { return nil, nil }
func (vfCookie) DecodeToken(d []byte) ([]byte, error) { return nil, nil }

type vfExtH struct{}

func (vfExtH) Send(hs HandshakeType, el *ExtensionList) error    { return nil }
func (vfExtH) Receive(hs HandshakeType, el *ExtensionList) error { return nil }

type vfRLF struct{}

func (vfRLF) NewLayer(c io.ReadWriter, d Direction) RecordLayer { return nil }

// vfFill sets the field to a non-zero value with probability 3/4
func vfFill(v *vfRun, f reflect.Value, name string) {
	if v.rng.Intn(4) == 0 || !f.CanSet() {
		return
	}
	n := v.rng.Intn(3)
	switch f.Kind() {
	case reflect.Bool:
		f.SetBool(true)
	case reflect.Int, reflect.Int32, reflect.Int64:
		f.SetInt(1 + int64(v.rng.Intn(1000)))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		f.SetUint(1 + uint64(v.rng.Intn(200)))
	case reflect.String:
		f.SetString(fmt.Sprintf("name%d", v.rng.Intn(1000)))
	case reflect.Slice:
		s := reflect.MakeSlice(f.Type(), n+1, n+2)
		for i := 0; i <= n; i++ {
			vfFill(v, s.Index(i), name)
		}
		f.Set(s)
	case reflect.Func:
		f.Set(reflect.MakeFunc(f.Type(), func(a []reflect.Value) []reflect.Value {
			var out []reflect.Value
			for i := 0; i < f.Type().NumOut(); i++ {
				out = append(out, reflect.Zero(f.Type().Out(i)))
			}
			return out
		}))
	case reflect.Interface:
		for _, c := range []interface{}{&PSKMapCache{"a": PreSharedKey{}}, vfCookie{}, vfExtH{}, vfRLF{}} {
			if reflect.TypeOf(c).Implements(f.Type()) {
				f.Set(reflect.ValueOf(c))
				return
			}
		}
	case reflect.Ptr:
		if f.Type() == reflect.TypeOf(&x509.CertPool{}) {
			f.Set(reflect.ValueOf(x509.NewCertPool()))
		} else {
			f.Set(reflect.New(f.Type().Elem()))
		}
	}
}
func vfSame(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Func:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !vfSame(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		return reflect.DeepEqual(a.Interface(), b.Interface())
	case reflect.Ptr:
		return a.Pointer() == b.Pointer()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func TestVfC26(t *testing.T) {
	v := vfStart(t, "random configurations, each exported setting set or unset; initialised as client or server")
	typ := reflect.TypeOf(Config{})
	for i := 0; i < v.n(400) && !v.over(); i++ {
		c := &Config{}
		class := ""
		for j := 0; j < typ.NumField(); j++ {
			f := reflect.ValueOf(c).Elem().Field(j)
			if typ.Field(j).PkgPath != "" {
				continue
			}
			vfFill(v, f, typ.Field(j).Name)
			if f.IsZero() {
				class += "0"
			} else {
				class += "1"
			}
		}
		client := v.rng.Intn(2) == 0
		v.run(fmt.Sprintf("settings=%s client=%v", class, client), func() {
			d := c.Clone()
			if d == c {
				v.viol("clone", "the clone is the original")
				return
			}
			for j := 0; j < typ.NumField(); j++ {
				if typ.Field(j).PkgPath == "" && !vfSame(reflect.ValueOf(c).Elem().Field(j), reflect.ValueOf(d).Elem().Field(j)) {
					v.viol("clone", "setting %s is %v in the original and %v in the clone", typ.Field(j).Name, reflect.ValueOf(c).Elem().Field(j), reflect.ValueOf(d).Elem().Field(j))
				}
			}
			d.CipherSuites = []CipherSuite{0x7777}
			d.ServerName = "changed"
			if c.ServerName == "changed" || len(c.CipherSuites) == 1 && c.CipherSuites[0] == 0x7777 {
				v.viol("clone", "changing the clone changed the original")
			}
			d = c.Clone()
			if err := d.Init(client); err != nil {
				v.viol("init", "Init: %v", err)
			}
			for j := 0; j < typ.NumField(); j++ {
				if typ.Field(j).PkgPath != "" {
					continue
				}
				a, b := reflect.ValueOf(c).Elem().Field(j), reflect.ValueOf(d).Elem().Field(j)
				unset := a.IsZero() || a.Kind() == reflect.Slice && a.Len() == 0
				if !unset && !vfSame(a, b) {
					v.viol("init", "Init changed setting %s from %v to %v", typ.Field(j).Name, a, b)
				}
			}
			for _, l := range []int{len(d.CipherSuites), len(d.Groups), len(d.SignatureSchemes), len(d.PSKModes), d.TicketLen} {
				if l == 0 {
					v.viol("init", "a default is missing")
				}
			}
		})
	}
	v.done()
}
