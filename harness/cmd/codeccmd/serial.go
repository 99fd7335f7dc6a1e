package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"
	"time"

	athrift "github.com/apache/thrift/lib/go/thrift"
	"github.com/donnie4w/gofer/keystore"
	gthrift "github.com/donnie4w/gofer/thrift"
	"github.com/donnie4w/gofer/util"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	"verifharness/vh"
)

// ---- a struct for gob and JSON

type inner struct {
	A string
	B []int64
	C *int32
}

type plain struct {
	I8  int8
	U64 uint64
	I   int64
	F   float64
	S   string
	Raw []byte
	M   map[string]int64
	L   []inner
	P   *inner
	T   bool
	Arr [3]uint16
}

var runes = []rune("aZ09 \"\\/<>&\n\t\x00é漢🎈\u2028")

func text(r *rand.Rand, n int) string {
	o := make([]rune, r.IntN(n+1))
	for i := range o {
		o[i] = runes[r.IntN(len(runes))]
	}
	return string(o)
}

// some is a length below n, once in a while far above
func some(r *rand.Rand, n int) int {
	if r.IntN(60) == 0 {
		return n + r.IntN(1<<(12+r.IntN(10)))
	}
	return r.IntN(n)
}

func i64(r *rand.Rand) int64 {
	if r.IntN(4) == 0 {
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 127, 128, -128}[r.IntN(10)]
	}
	return int64(r.Uint64()) >> r.IntN(64)
}

func newInner(r *rand.Rand) inner {
	in := inner{A: text(r, 12)}
	for k := r.IntN(4); k > 0; k-- {
		in.B = append(in.B, i64(r))
	}
	if r.IntN(2) == 0 {
		v := int32(i64(r))
		if v == 0 {
			v = 7 // gob leaves out zero values, pointers to them included
		}
		in.C = &v
	}
	return in
}

func newPlain(r *rand.Rand) plain {
	p := plain{I8: int8(i64(r)), U64: uint64(i64(r)), I: i64(r), S: text(r, 60), T: r.IntN(2) == 0}
	p.F = []float64{0, 1.5, -1e300, 1e-300, math.MaxFloat64, math.SmallestNonzeroFloat64, r.NormFloat64(), float64(i64(r))}[r.IntN(8)]
	if n := some(r, 400); n > 0 {
		p.Raw = make([]byte, n)
		fill(r, p.Raw)
	}
	for k := r.IntN(5); k > 0; k-- {
		if p.M == nil {
			p.M = map[string]int64{}
		}
		p.M[text(r, 8)] = i64(r)
	}
	for k := r.IntN(4); k > 0; k-- {
		p.L = append(p.L, newInner(r))
	}
	if r.IntN(2) == 0 {
		x := newInner(r)
		x.A += "."
		p.P = &x
	}
	p.Arr[r.IntN(3)] = uint16(r.Uint32())
	return p
}

// ---- a struct for the thrift package (apache library)

type rec struct {
	Name string // 1, required
	Id   int64  // 2, required
	B    bool
	I8   int8
	I16  int16
	I32  int32
	D    float64
	Bin  []byte
	L    []int64
	M    map[string]string
	Sub  *rec
}

func newRec(r *rand.Rand, depth int) *rec {
	x := &rec{Name: text(r, 30), Id: i64(r), B: r.IntN(2) == 0, I8: int8(i64(r)), I16: int16(i64(r)), I32: int32(i64(r)), D: r.NormFloat64(), Bin: []byte{}, L: []int64{}, M: map[string]string{}}
	if r.IntN(3) == 0 {
		x.Name += string(data(r, some(r, 5000)))
	}
	x.Bin = append(x.Bin, data(r, some(r, 100))...)
	for k := r.IntN(20); k > 0; k-- {
		x.L = append(x.L, i64(r))
		x.M[text(r, 10)] = text(r, 20)
	}
	if depth > 0 && r.IntN(2) == 0 {
		x.Sub = newRec(r, depth-1)
	}
	return x
}

func (x *rec) Write(ctx context.Context, p athrift.TProtocol) (err error) { return x.write(ctx, p, 0) }

// write leaves out field skip.
func (x *rec) write(ctx context.Context, p athrift.TProtocol, skip int16) (err error) {
	if err = p.WriteStructBegin(ctx, "rec"); err != nil {
		return
	}
	field := func(id int16, t athrift.TType, f func() error) {
		if err != nil || id == skip {
			return
		}
		if err = p.WriteFieldBegin(ctx, "f", t, id); err != nil {
			return
		}
		if err = f(); err == nil {
			err = p.WriteFieldEnd(ctx)
		}
	}
	field(1, athrift.STRING, func() error { return p.WriteString(ctx, x.Name) })
	field(2, athrift.I64, func() error { return p.WriteI64(ctx, x.Id) })
	field(3, athrift.BOOL, func() error { return p.WriteBool(ctx, x.B) })
	field(4, athrift.BYTE, func() error { return p.WriteByte(ctx, x.I8) })
	field(5, athrift.I16, func() error { return p.WriteI16(ctx, x.I16) })
	field(6, athrift.I32, func() error { return p.WriteI32(ctx, x.I32) })
	field(7, athrift.DOUBLE, func() error { return p.WriteDouble(ctx, x.D) })
	field(8, athrift.STRING, func() error { return p.WriteBinary(ctx, x.Bin) })
	field(9, athrift.LIST, func() error {
		p.WriteListBegin(ctx, athrift.I64, len(x.L))
		for _, v := range x.L {
			p.WriteI64(ctx, v)
		}
		return p.WriteListEnd(ctx)
	})
	field(40, athrift.MAP, func() error {
		p.WriteMapBegin(ctx, athrift.STRING, athrift.STRING, len(x.M))
		for k, v := range x.M {
			p.WriteString(ctx, k)
			p.WriteString(ctx, v)
		}
		return p.WriteMapEnd(ctx)
	})
	if x.Sub != nil {
		field(41, athrift.STRUCT, func() error { return x.Sub.Write(ctx, p) })
	}
	if err == nil {
		p.WriteFieldStop(ctx)
		err = p.WriteStructEnd(ctx)
	}
	return
}

func (x *rec) Read(ctx context.Context, p athrift.TProtocol) (err error) {
	if _, err = p.ReadStructBegin(ctx); err != nil {
		return
	}
	want := map[int16]athrift.TType{1: athrift.STRING, 2: athrift.I64, 3: athrift.BOOL, 4: athrift.BYTE, 5: athrift.I16, 6: athrift.I32, 7: athrift.DOUBLE, 8: athrift.STRING, 9: athrift.LIST, 40: athrift.MAP, 41: athrift.STRUCT}
	seen := map[int16]bool{}
	for {
		_, t, id, e := p.ReadFieldBegin(ctx)
		if e != nil {
			return e
		}
		if t == athrift.STOP {
			break
		}
		if want[id] != t {
			if err = p.Skip(ctx, t); err != nil {
				return
			}
			continue
		}
		seen[id] = true
		switch id {
		case 1:
			x.Name, err = p.ReadString(ctx)
		case 2:
			x.Id, err = p.ReadI64(ctx)
		case 3:
			x.B, err = p.ReadBool(ctx)
		case 4:
			x.I8, err = p.ReadByte(ctx)
		case 5:
			x.I16, err = p.ReadI16(ctx)
		case 6:
			x.I32, err = p.ReadI32(ctx)
		case 7:
			x.D, err = p.ReadDouble(ctx)
		case 8:
			x.Bin, err = p.ReadBinary(ctx)
		case 9:
			var n int
			if _, n, err = p.ReadListBegin(ctx); err == nil {
				x.L = []int64{}
				for ; n > 0 && err == nil; n-- {
					var v int64
					v, err = p.ReadI64(ctx)
					x.L = append(x.L, v)
				}
			}
		case 40:
			var n int
			if _, _, n, err = p.ReadMapBegin(ctx); err == nil {
				x.M = map[string]string{}
				for ; n > 0 && err == nil; n-- {
					var k, v string
					if k, err = p.ReadString(ctx); err == nil {
						v, err = p.ReadString(ctx)
						x.M[k] = v
					}
				}
			}
		case 41:
			x.Sub = &rec{}
			err = x.Sub.Read(ctx, p)
		}
		if err != nil {
			return
		}
	}
	if !seen[1] || !seen[2] {
		return athrift.NewTProtocolExceptionWithType(athrift.INVALID_DATA, fmt.Errorf("required field is not set"))
	}
	return nil
}

type partial struct {
	*rec
	skip int16
}

func (p partial) Write(ctx context.Context, o athrift.TProtocol) error {
	return p.rec.write(ctx, o, p.skip)
}

// ---- key store beans (gothrift)

func newUser(r *rand.Rand) *keystore.UserBean {
	return &keystore.UserBean{Name: text(r, 20), Pwd: text(r, 40), Type: int8(r.Uint32())}
}

func newKeys(r *rand.Rand) *keystore.KeyBean {
	users := func() map[string]*keystore.UserBean {
		n := r.IntN(6) - 1
		if n < 0 {
			return nil
		}
		m := map[string]*keystore.UserBean{}
		for ; n > 0; n-- {
			m[text(r, 10)] = newUser(r)
		}
		return m
	}
	k := &keystore.KeyBean{Admin: users(), Client: users(), Mq: users()}
	if n := r.IntN(6) - 1; n >= 0 {
		k.Other = map[string]string{}
		for ; n > 0; n-- {
			k.Other[text(r, 10)] = string(data(r, some(r, 2000)))
		}
	}
	return k
}

// ---- protobuf messages

func newMsg(r *rand.Rand) proto.Message {
	switch r.IntN(6) {
	case 0:
		return timestamppb.New(time.Unix(i64(r)%1e10, int64(r.IntN(1e9))))
	case 1:
		return &durationpb.Duration{Seconds: i64(r), Nanos: int32(i64(r))}
	case 2:
		return wrapperspb.Bytes(data(r, some(r, 3000)))
	case 3:
		return wrapperspb.Double(r.NormFloat64())
	case 4:
		var mk func(d int) *structpb.Value
		mk = func(d int) *structpb.Value {
			switch k := r.IntN(6); {
			case k == 0:
				return structpb.NewNullValue()
			case k == 1:
				return structpb.NewNumberValue(r.NormFloat64())
			case k == 2:
				return structpb.NewBoolValue(r.IntN(2) == 0)
			case k == 3 && d > 0:
				l := &structpb.ListValue{}
				for n := r.IntN(5); n > 0; n-- {
					l.Values = append(l.Values, mk(d-1))
				}
				return structpb.NewListValue(l)
			case k == 4 && d > 0:
				m := &structpb.Struct{Fields: map[string]*structpb.Value{}}
				for n := r.IntN(5); n > 0; n-- {
					m.Fields[text(r, 8)] = mk(d - 1)
				}
				return structpb.NewStructValue(m)
			}
			return structpb.NewStringValue(text(r, 40))
		}
		return mk(3)
	}
	return &descriptorpb.UninterpretedOption_NamePart{NamePart: proto.String(text(r, 20)), IsExtension: proto.Bool(r.IntN(2) == 0)}
}

// ---- one interface over all helper pairs

type value struct {
	v    any
	enc  []byte
	kind int
}

var kinds = []string{"gob", "json", "protobuf", "util-thrift-keys", "util-thrift-user", "thrift"}

func encode(r *rand.Rand, kind int) (x value, err error) {
	x.kind = kind
	switch kind {
	case 0:
		v := newPlain(r)
		x.v = &v
		if r.IntN(2) == 0 {
			x.enc, err = util.Encode(v)
		} else {
			x.enc, err = util.Encode(&v)
		}
	case 1:
		v := newPlain(r)
		x.v, x.enc = &v, util.JsonEncode(v)
	case 2:
		m := newMsg(r)
		x.v, x.enc = m, util.Marshal(m)
	case 3:
		k := newKeys(r)
		x.v, x.enc = k, util.TEncode(k)
	case 4:
		u := newUser(r)
		x.v, x.enc = u, util.TEncode(u)
	case 5:
		t := newRec(r, 2)
		x.v, x.enc = t, gthrift.TEncode(t)
	}
	return
}

func decode(kind int, like any, b []byte) (v any, err error) {
	switch kind {
	case 0:
		return util.Decode[plain](b)
	case 1:
		o, err := util.JsonDecode[plain](b)
		return &o, err
	case 2:
		m := like.(proto.Message).ProtoReflect().New().Interface()
		err = util.Unmarshal(b, m)
		return m, err
	case 3:
		return util.TDecode(b, &keystore.KeyBean{})
	case 4:
		return util.TDecode(b, &keystore.UserBean{})
	}
	return gthrift.TDecode(b, &rec{})
}

func equal(a, b any) bool {
	if m, ok := a.(proto.Message); ok {
		return proto.Equal(m, b.(proto.Message))
	}
	return reflect.DeepEqual(a, b)
}

// independent decodes with the library alone.
func independent(x *value) (v any, err error) {
	switch x.kind {
	case 0:
		o := &plain{}
		return o, gob.NewDecoder(bytes.NewReader(x.enc)).Decode(o)
	case 1:
		o := &plain{}
		return o, json.Unmarshal(x.enc, o)
	case 2:
		m := x.v.(proto.Message).ProtoReflect().New().Interface()
		return m, proto.Unmarshal(x.enc, m)
	case 5:
		o := &rec{}
		return o, o.Read(context.Background(), athrift.NewTCompactProtocolConf(&athrift.TMemoryBuffer{Buffer: bytes.NewBuffer(append([]byte{}, x.enc...))}, &athrift.TConfiguration{}))
	}
	return x.v, nil
}

func u04(r *vh.Run) {
	r.Rule("each case encodes a generated value with one of the six helper pairs, decodes it with the helper and with the library alone, compares, and decodes truncations, alterations and encodings without a required part; concurrent cases keep all encodings and decode them later; counted by distinct encodings")
	r.SeqCases("values", r.N(9000, 150000), 4, func(c *vh.Case) {
		kind := c.I % len(kinds)
		seed := c.R.Uint64()
		x, err := encode(vh.NewRand(seed), kind)
		if !c.Check(err == nil && (len(x.enc) > 0 || kind == 2), "encode", "%s: %v, %d bytes", kinds[kind], err, len(x.enc)) {
			return
		}
		again, _ := encode(vh.NewRand(seed), kind)
		c.Check(equal(x.v, again.v), "input-modified", "%s: encoding changed the value", kinds[kind])
		g, same := guarded(x.enc)
		v, err := decode(kind, x.v, g)
		c.Check(err == nil && equal(x.v, v), "roundtrip", "%s of %.300v: %v, back %.300v", kinds[kind], x.v, err, v)
		c.Check(same(), "input-modified", "%s: decoding modified its input", kinds[kind])
		v, err = independent(&x)
		c.Check(err == nil && equal(x.v, v), "foreign", "%s of %.300v as the library reads it: %v, %.300v", kinds[kind], x.v, err, v)
		c.Eval(1)
		c.Observe("roundtrips_"+kinds[kind], 1)
		c.Distinct(vh.Hash(kind, x.enc))
		if c.I < 3 {
			c.Sample(map[string]any{"pair": kinds[kind], "encoded": brief(x.enc)})
		}
		// damage
		for t := 0; t < 8; t++ {
			b := append([]byte{}, x.enc...)
			what := "altered"
			switch c.R.IntN(3) {
			case 0:
				b = b[:c.R.IntN(len(b)+1)]
				what = "truncated"
			case 1:
				for m := 1 + c.R.IntN(3); m > 0 && len(b) > 0; m-- {
					b[c.R.IntN(len(b))] ^= 1 << c.R.IntN(8)
				}
			case 2:
				b = make([]byte, c.R.IntN(50))
				fill(c.R, b)
			}
			var v any
			var err error
			g, same := guarded(b)
			if p := vh.Try(func() { v, err = decode(kind, x.v, g) }); p != "" {
				c.Violate("panic", "%s panics decoding %s (%s): %s", kinds[kind], brief(b), what, p)
			}
			c.Check(same(), "input-modified", "%s: decoding damaged data modified it", kinds[kind])
			// a cut through an encoding that states its end is an error; protobuf may end between fields
			if what == "truncated" && len(b) < len(x.enc) && kind != 2 && err == nil {
				c.Violate("truncation-accepted", "%s decodes %d of %d bytes without error to %.300v", kinds[kind], len(b), len(x.enc), v)
			}
			if err != nil {
				c.Observe("damaged_rejected", 1)
			} else {
				c.Observe("damaged_accepted", 1)
			}
			c.Eval(1)
		}
	})
	r.SeqCases("again", r.N(1500, 20000), 4, func(c *vh.Case) {
		// the same message object encoded again after a change, and decoded over another value
		m, o := newMsg(c.R), newMsg(c.R)
		for k := 0; k < 20 && o.ProtoReflect().Descriptor() != m.ProtoReflect().Descriptor(); k++ {
			o = newMsg(c.R)
		}
		if o.ProtoReflect().Descriptor() != m.ProtoReflect().Descriptor() {
			return
		}
		if c.R.IntN(2) == 0 {
			proto.Size(m)
		}
		util.Marshal(m)
		switch c.R.IntN(3) {
		case 0:
			proto.Merge(m, o)
		case 1:
			proto.Reset(m)
			proto.Merge(m, o)
		case 2:
			if _, req := m.(*descriptorpb.UninterpretedOption_NamePart); !req { // it has required fields
				proto.Reset(m)
			}
		}
		b := util.Marshal(m)
		back := m.ProtoReflect().New().Interface()
		err := proto.Unmarshal(b, back)
		c.Check(err == nil && proto.Equal(m, back), "roundtrip", "protobuf message encoded again after a change: %.300v, back %.300v, %v", m, back, err)
		err = util.Unmarshal(b, o)
		c.Check(err == nil && proto.Equal(m, o), "roundtrip", "protobuf decoded over another message: %.300v, back %.300v, %v", m, o, err)
		// JSON followed by anything but white space
		v := newPlain(c.R)
		j := util.JsonEncode(v)
		sp := strings.Repeat(" \n\t\r"[c.R.IntN(4):][:1], c.R.IntN(3))
		d, err := util.JsonDecode[plain]([]byte(sp + string(j) + sp))
		c.Check(err == nil && equal(&v, &d), "roundtrip", "JSON between white space: %v, %.300v", err, d)
		junk := []string{"x", "}", "{}", string(j), "0", ",", "\x00", "null", "//"}[c.R.IntN(9)]
		_, err = util.JsonDecode[plain]([]byte(string(j) + sp + junk))
		c.Check(err != nil, "rubbish-accepted", "JSON followed by %q decodes without error", junk)
		n := i64(c.R)
		_, err = util.JsonDecode[int64]([]byte(fmt.Sprint(n, " ", n)))
		c.Check(err != nil, "rubbish-accepted", "JSON of two numbers decodes without error")
		c.Eval(3)
		c.Observe("second_encodings", 1)
		c.Distinct(vh.Hash("again", b, j))
	})
	r.SeqCases("deep-and-foreign", r.N(240, 3000), 4, func(c *vh.Case) {
		// fields the receiver does not know are part of a protobuf message and survive
		m := newMsg(c.R)
		var u []byte
		for k := 1 + c.R.IntN(3); k > 0; k-- {
			u = protowire.AppendTag(u, protowire.Number(5000+c.R.IntN(1<<20)), protowire.BytesType)
			u = protowire.AppendBytes(u, data(c.R, some(c.R, 300)))
			u = protowire.AppendTag(u, protowire.Number(60+c.R.IntN(100)), protowire.VarintType)
			u = protowire.AppendVarint(u, c.R.Uint64())
		}
		m.ProtoReflect().SetUnknown(u)
		b := util.Marshal(m)
		back := m.ProtoReflect().New().Interface()
		err := util.Unmarshal(b, back)
		c.Check(err == nil && proto.Equal(m, back), "unknown-fields", "protobuf message with unknown fields %.200x: %v, back %.300v", u, err, back)
		// values nested deeply
		depth := 1 + c.R.IntN(1<<(2+c.R.IntN(9)))
		v := structpb.NewStringValue("bottom")
		for k := 0; k < depth; k++ {
			if c.R.IntN(2) == 0 {
				v = structpb.NewListValue(&structpb.ListValue{Values: []*structpb.Value{v}})
			} else {
				v = structpb.NewStructValue(&structpb.Struct{Fields: map[string]*structpb.Value{"k": v}})
			}
		}
		got := &structpb.Value{}
		err = util.Unmarshal(util.Marshal(v), got)
		c.Check(err == nil && proto.Equal(v, got), "deep", "protobuf value %d deep: %v", depth, err)
		type node struct {
			N    int
			Next *node
		}
		var l *node
		var t *rec
		for k := 0; k < depth; k++ {
			l = &node{k + 1, l}
			if k < 60 { // the default limit of the apache library is 64
				t = &rec{Name: "n", Id: int64(k), Bin: []byte{}, L: []int64{}, M: map[string]string{}, Sub: t}
			}
		}
		e, err := util.Encode(l)
		var l2 *node
		if err == nil {
			l2, err = util.Decode[node](e)
		}
		c.Check(err == nil && reflect.DeepEqual(l, l2), "deep", "gob value %d deep: %v", depth, err)
		l3, err := util.JsonDecode[*node](util.JsonEncode(l))
		c.Check(err == nil && reflect.DeepEqual(l, l3), "deep", "JSON value %d deep: %v", depth, err)
		t2, err := gthrift.TDecode(gthrift.TEncode(t), &rec{})
		c.Check(err == nil && reflect.DeepEqual(t, t2), "deep", "thrift record %d deep: %v", min(depth, 60), err)
		c.Eval(5)
		c.Max("depth", depth)
		c.Observe("messages_with_unknown_fields", 1)
		c.Distinct(vh.Hash("deep", b, depth))
	})
	r.SeqCases("large", r.N(3, 12), 1, func(c *vh.Case) {
		if r.Race {
			return
		}
		// 17 MB and more in one value: below the libraries' own limits, above tidy smaller ones
		n := []int{17 << 20, 34 << 20, 68 << 20}[c.I%3] + c.R.IntN(1000)
		s := strings.Repeat(string(data(c.R, 999)), n/999)
		t := &rec{Name: s, Id: 1, Bin: []byte(s), L: []int64{}, M: map[string]string{}}
		t2, err := gthrift.TDecode(gthrift.TEncode(t), &rec{})
		c.Check(err == nil && t2 != nil && t2.Name == s && string(t2.Bin) == s, "large", "thrift record of two strings of %d bytes: %v", len(s), err)
		k, err := util.TDecode(util.TEncode(&keystore.KeyBean{Other: map[string]string{"a": s}}), &keystore.KeyBean{})
		c.Check(err == nil && k != nil && k.Other["a"] == s, "large", "key bean of a string of %d bytes: %v", len(s), err)
		w := &wrapperspb.BytesValue{}
		err = util.Unmarshal(util.Marshal(wrapperspb.Bytes([]byte(s))), w)
		c.Check(err == nil && string(w.Value) == s, "large", "protobuf bytes of %d bytes: %v", len(s), err)
		e, err := util.Encode(plain{Raw: []byte(s)})
		var q *plain
		if err == nil {
			q, err = util.Decode[plain](e)
		}
		c.Check(err == nil && q != nil && string(q.Raw) == s, "large", "gob bytes of %d bytes: %v", len(s), err)
		p, err := util.JsonDecode[plain](util.JsonEncode(plain{Raw: []byte(s)}))
		c.Check(err == nil && string(p.Raw) == s, "large", "JSON bytes of %d bytes: %v", len(s), err)
		c.Eval(5)
		c.Max("large_value_bytes", len(s))
		c.Distinct(vh.Hash("large", len(s)))
	})
	r.SeqCases("required", r.N(400, 4000), 4, func(c *vh.Case) {
		for skip := int16(1); skip <= 2; skip++ {
			b := gthrift.TEncode(partial{newRec(c.R, 0), skip})
			_, err := gthrift.TDecode(b, &rec{})
			c.Check(err != nil, "required-missing", "thrift.TDecode accepts a record without required field %d", skip)
		}
		// a user bean without one of its required fields: cut the encoded fields out
		u := &keystore.UserBean{Name: "n" + text(c.R, 5), Pwd: "p", Type: 1}
		n, b := len(u.Name), util.TEncode(u)
		if len(b) == 2+n+3+2+1 && n < 128 {
			for i, cut := range [][]byte{append([]byte{0x28}, b[2+n+1:]...), append(append([]byte{}, b[:2+n]...), 0x23, b[len(b)-2], 0), append(append([]byte{}, b[:len(b)-3]...), 0)} {
				if i == 0 {
					cut[0] = 0x28
				}
				v, err := util.TDecode(cut, &keystore.UserBean{})
				c.Check(err != nil, "required-missing", "util.TDecode accepts a user without required field %d as %v", i+1, v)
				c.Observe("beans_without_required_field", 1)
			}
		} else {
			c.Inconclusive("unexpected encoding of a user bean: %x", b)
		}
		np := &descriptorpb.UninterpretedOption_NamePart{}
		for _, b := range [][]byte{nil, {0x0a, 1, 'a'}, {0x10, 1}} {
			c.Check(util.Unmarshal(b, np) != nil, "required-missing", "util.Unmarshal accepts %x without a required field", b)
		}
		_, err := util.JsonDecode[plain]([]byte(`{"I8":1`))
		c.Check(err != nil, "required-missing", "util.JsonDecode accepts an unclosed object")
		c.Eval(4)
		c.Distinct(vh.Hash("req", b))
	})
	r.Cases("concurrent", r.N(300, 4000), 1, func(c *vh.Case) {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			rr := vh.NewRand(c.R.Uint64())
			wg.Add(1)
			go func() {
				defer wg.Done()
				var held []value
				for i := 0; i < 12; i++ {
					x, err := encode(rr, rr.IntN(len(kinds)))
					if err != nil {
						c.Violate("encode", "%v", err)
						return
					}
					held = append(held, x)
				}
				for _, x := range held {
					v, err := decode(x.kind, x.v, x.enc)
					c.Check(err == nil && equal(x.v, v), "concurrent-roundtrip", "%s used concurrently: %v, wrote %.300v, back %.300v", kinds[x.kind], err, x.v, v)
				}
				c.Observe("concurrent_roundtrips", len(held))
				c.Eval(len(held))
			}()
		}
		wg.Wait()
		c.Distinct(vh.Hash("conc", c.I))
	})
}
