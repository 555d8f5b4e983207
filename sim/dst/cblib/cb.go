// Package cblib has types with callbacks; cblib and cbstd differ by import only.
package cblib

import (
	"errors"
	"reflect"

	"github.com/Eyevinn/dash-mpd/xml"
)

var errCallback = errors.New("callback error")

// ValEl encodes through a value and decodes through a pointer.
type ValEl struct{ S string }

func (v ValEl) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	if v.S == "error" {
		return errCallback
	}
	if v.S == "" {
		return nil
	}
	return e.EncodeElement(v.S, start)
}

func (v *ValEl) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &start); err != nil {
		return err
	}
	if s == "error" {
		return errCallback
	}
	v.S += start.Name.Local + s
	return nil
}

// PtrEl does both through a pointer, with tokens.
type PtrEl struct{ S string }

func (v *PtrEl) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	for _, s := range []string{v.S, "2"} {
		st := start.Copy()
		st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Local: "cb"}, Value: s})
		if err := e.EncodeToken(st); err != nil {
			return err
		}
		if err := e.EncodeToken(xml.CharData(s)); err != nil {
			return err
		}
		if err := e.EncodeElement(ValEl{s}, xml.StartElement{Name: xml.Name{Local: "in"}}); err != nil {
			return err
		}
		if err := e.EncodeToken(st.End()); err != nil {
			return err
		}
	}
	return nil
}

func (v *PtrEl) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for _, a := range start.Attr {
		v.S += "@" + a.Name.Local + "=" + a.Value
	}
	for depth := 0; ; {
		t, err := d.Token()
		if err != nil {
			return err
		}
		switch t := t.(type) {
		case xml.StartElement:
			if t.Name.Local == "in" {
				var x ValEl
				if err := d.DecodeElement(&x, &t); err != nil {
					return err
				}
				v.S += "(" + x.S + ")"
				continue
			}
			depth++
			v.S += "<" + t.Name.Local
		case xml.EndElement:
			if depth--; depth < 0 {
				return nil
			}
		case xml.CharData:
			v.S += string(t)
		}
	}
}

// MapEl decodes through a value.
type MapEl map[string]int

func (v MapEl) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement(len(v), start)
}

func (v MapEl) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	if v != nil {
		v[start.Name.Local]++
	}
	return d.Skip()
}

// StrEl is a simple value that encodes itself as an element.
type StrEl string

func (v StrEl) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Local: "len"}, Value: string(v)})
	return e.EncodeElement(struct {
		A string `xml:"a,attr"`
		V int    `xml:"v"`
	}{string(v), len(v)}, start)
}

// ValAt encodes an attribute through a value and decodes one through a pointer.
type ValAt struct{ S string }

func (v ValAt) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	switch v.S {
	case "":
		return xml.Attr{}, nil
	case "error":
		return xml.Attr{}, errCallback
	case "7":
		name.Local += "-" + v.S
	}
	return xml.Attr{Name: name, Value: "(" + v.S + ")"}, nil
}

func (v *ValAt) UnmarshalXMLAttr(a xml.Attr) error {
	if a.Value == "error" {
		return errCallback
	}
	v.S += a.Name.Local + "=" + a.Value
	return nil
}

// PtrAt does both through a pointer.
type PtrAt struct{ S string }

func (v *PtrAt) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	if v == nil {
		return xml.Attr{Name: name, Value: "nil"}, nil
	}
	return xml.Attr{Name: name, Value: "*" + v.S}, nil
}

func (v *PtrAt) UnmarshalXMLAttr(a xml.Attr) error {
	v.S = a.Name.Local + "*" + a.Value
	return nil
}

// MapAt decodes an attribute through a value.
type MapAt map[string]int

func (v MapAt) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: string(rune('a' + len(v)))}, nil
}

func (v MapAt) UnmarshalXMLAttr(a xml.Attr) error {
	if v != nil {
		v[a.Value]++
	}
	return nil
}

// AllCb converts in every way, an element, an attribute or text.
type AllCb struct{ S string }

func (v AllCb) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	return e.EncodeElement("el "+v.S, start)
}
func (v AllCb) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: name, Value: "at " + v.S}, nil
}
func (v AllCb) MarshalText() ([]byte, error) { return []byte("tx " + v.S), nil }
func (v *AllCb) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	v.S = "el"
	return d.Skip()
}
func (v *AllCb) UnmarshalXMLAttr(a xml.Attr) error { v.S = "at" + a.Value; return nil }
func (v *AllCb) UnmarshalText(b []byte) error      { v.S = "tx" + string(b); return nil }

// Promoted has the methods of what it embeds.
type Promoted struct {
	ValEl
	X string `xml:"x"`
}

// PromotedAt is an attribute by what it embeds.
type PromotedAt struct {
	*PtrAt
	X string
}

// CbHolder has them as fields.
type CbHolder struct {
	XMLName xml.Name
	A       ValAt    `xml:"a,attr"`
	B       *PtrAt   `xml:"b,attr"`
	C       []ValAt  `xml:"c,attr"`
	D       *AllCb   `xml:"d,attr,omitempty"`
	E       ValEl    `xml:"e"`
	F       []PtrEl  `xml:"f"`
	G       *StrEl   `xml:"p>g"`
	H       Promoted `xml:"p>h"`
	I       []*AllCb `xml:"i,omitempty"`
	T       AllCb    `xml:",chardata"`
	Any     []*PtrEl `xml:",any"`
}

// Callbacks are the types.
var Callbacks = []reflect.Type{
	reflect.TypeFor[ValEl](), reflect.TypeFor[PtrEl](), reflect.TypeFor[MapEl](), reflect.TypeFor[StrEl](), reflect.TypeFor[ValAt](), reflect.TypeFor[PtrAt](), reflect.TypeFor[MapAt](), reflect.TypeFor[AllCb](), reflect.TypeFor[Promoted](), reflect.TypeFor[PromotedAt](), reflect.TypeFor[CbHolder](),
}
