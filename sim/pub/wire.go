package pub

import (
	"bytes"
	"compress/gzip"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"fmt"
	"strings"
)

// Commands.
const (
	CmdConnect         = 0x00
	CmdMetadata        = 0x01
	CmdSubscribe       = 0x02
	CmdUnsubscribe     = 0x03
	CmdRotateKeys      = 0x04
	CmdProcInterval    = 0x05
	CmdOpModes         = 0x06
	CmdConfirmNotify   = 0x07
	CmdConfirmBlock    = 0x08
	CmdConfirmBaseTime = 0x09
	CmdConfirmCache    = 0x0A
	CmdConfirmKeys     = 0x0B
	CmdUser            = 0xD0
)

// Responses.
const (
	RespOK         = 0x80
	RespFail       = 0x81
	RespData       = 0x82
	RespCache      = 0x83
	RespBaseTimes  = 0x84
	RespKeys       = 0x85
	RespStartTime  = 0x86
	RespComplete   = 0x87
	RespBlock      = 0x88
	RespNotify     = 0x89
	RespConfigured = 0x8A
	RespNoOP       = 0xFF
)

// Data packet flags.
const (
	FlagCompact    = 0x02
	FlagCipherOdd  = 0x04
	FlagCompressed = 0x08
	FlagCacheOne   = 0x10
)

// Operational mode bits.
const (
	ModeUTF8         = 0x00000200
	ModeGZip         = 0x00000020
	ModeTSSC         = 0x00000040
	ModeCompPayload  = 0x20000000
	ModeCompCache    = 0x40000000
	ModeCompMetadata = 0x80000000
)

type GUID [16]byte

// Meas is one measurement as the application should see it.
type Meas struct {
	ID    GUID
	Index int32
	TS    uint64
	Flags uint32
	Value uint32 // float bits
}

func (m Meas) String() string {
	return fmt.Sprintf("{signal %x time %d flags %#x value %#x}", m.ID[:4], m.TS, m.Flags, m.Value)
}

// Response builds the body of a response (without the TCP length prefix).
func Response(resp, cmd byte, data []byte) []byte {
	b := make([]byte, 6+len(data))
	b[0], b[1] = resp, cmd
	binary.BigEndian.PutUint32(b[2:], uint32(len(data)))
	copy(b[6:], data)
	return b
}

// Frame prefixes a body with its length.
func Frame(body []byte) []byte {
	b := make([]byte, 4+len(body))
	binary.BigEndian.PutUint32(b, uint32(len(body)))
	copy(b[4:], body)
	return b
}

func GZip(b []byte) []byte {
	var o bytes.Buffer
	z, _ := gzip.NewWriterLevel(&o, gzip.BestSpeed)
	z.Write(b)
	z.Close()
	return o.Bytes()
}

// Rec is one signal index cache record.
type Rec struct {
	Index  int32
	ID     GUID
	Source string
	Num    uint64
}

func swapGUID(g GUID, rfc bool) GUID {
	if rfc {
		return g
	}
	g[0], g[1], g[2], g[3] = g[3], g[2], g[1], g[0]
	g[4], g[5] = g[5], g[4]
	g[6], g[7] = g[7], g[6]
	return g
}

// CacheBody builds a signal index cache body.
func CacheBody(subscriber GUID, recs []Rec, rfc bool) []byte {
	var b []byte
	b = append(b, 0, 0, 0, 0)
	s := swapGUID(subscriber, rfc)
	b = append(b, s[:]...)
	b = binary.BigEndian.AppendUint32(b, uint32(len(recs)))
	for _, r := range recs {
		b = binary.BigEndian.AppendUint32(b, uint32(r.Index))
		g := swapGUID(r.ID, rfc)
		b = append(b, g[:]...)
		b = binary.BigEndian.AppendUint32(b, uint32(len(r.Source)))
		b = append(b, r.Source...)
		b = binary.BigEndian.AppendUint64(b, r.Num)
	}
	b = binary.BigEndian.AppendUint32(b, 0) // no unauthorized signals
	binary.BigEndian.PutUint32(b, uint32(len(b)))
	return b
}

// FullFlags maps compact state flags to full ones.
func FullFlags(c byte) uint32 {
	var f uint32
	for bit, mask := range [6]uint32{0x000000FC, 0x0000EF03, 0x00BF0000, 0xE0000000, 0x00001000, 0x00400000} {
		if c>>bit&1 != 0 {
			f |= mask
		}
	}
	return f
}

// Encrypt is AES-CBC with zero padding.
func Encrypt(key, iv, b []byte) []byte {
	blk, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	n := (len(b) + 15) / 16 * 16
	p := make([]byte, n)
	copy(p, b)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(p, p)
	return p
}

// ParseConn splits a connection string of key=value pairs; values may be in braces.
func ParseConn(s string) (map[string]string, error) {
	out := map[string]string{}
	for i := 0; i < len(s); {
		j := i
		depth := 0
		for j < len(s) && (s[j] != ';' || depth > 0) {
			if s[j] == '{' {
				depth++
			} else if s[j] == '}' {
				depth--
			}
			j++
		}
		if depth != 0 {
			return nil, fmt.Errorf("unbalanced braces")
		}
		part := strings.TrimSpace(s[i:j])
		i = j + 1
		if part == "" {
			continue
		}
		k, v, ok := strings.Cut(part, "=")
		if !ok {
			return nil, fmt.Errorf("%q is not key=value", part)
		}
		k = strings.ToLower(strings.TrimSpace(k))
		v = strings.TrimSpace(v)
		if strings.HasPrefix(v, "{") && strings.HasSuffix(v, "}") {
			v = v[1 : len(v)-1]
		}
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("duplicate key %q", k)
		}
		out[k] = v
	}
	return out, nil
}
