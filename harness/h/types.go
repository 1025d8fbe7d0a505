package h

import (
	"time"

	amino "github.com/tendermint/go-amino"
)

// ---- the catalogue of types over which the binary properties are decided

type Ints struct {
	A int8
	B int16
	C int32
	D int64
	E int
}

type Uints struct {
	A uint8
	B uint16
	C uint32
	D uint64
	E uint
}

type Fixed struct {
	A int64  `binary:"fixed64"`
	B uint64 `binary:"fixed64"`
	C int32  `binary:"fixed32"`
	D uint32 `binary:"fixed32"`
}

type Floats struct {
	A float32 `amino:"unsafe"`
	B float64 `amino:"unsafe"`
}

type Text struct {
	A string
	B []byte
	C [4]byte
	D bool
	E string
}

type Ptrs struct {
	A *int
	B *string
	C *bool
	D **int64
	E *uint8
	F *[]byte
	G *[3]byte
}

type Leaf struct {
	A int64
	B string
}

type Nest struct {
	A Leaf
	B *Leaf
	C struct {
		X uint8
		Y Leaf
	}
	D int32
}

type Deep struct {
	A *struct {
		B struct {
			C *struct {
				D Leaf
				E bool
			}
			F int16
		}
	}
	G uint64
}

type MyInt int32
type MyStr string
type MyBytes []byte
type MyBool bool

type Named struct {
	A MyInt
	B MyStr
	C MyBytes
	D MyBool
	E *MyStr
}

// Oct is a byte type of its own.
type Oct byte

type Octets struct {
	A []Oct
	B [3]Oct
	C [][]Oct
	D *[]Oct
	E [][2]Oct
	F *[2]Oct
	G []MyBytes
}

type Embedded struct {
	Leaf
	*Uints
	Z int
}

// Tagged exercises which fields are part of the encoding.
type Tagged struct {
	A int64 `json:"a"`
	b int64
	C string `json:"-"`
	D []byte `json:"dd,omitempty"`
	E uint32 `json:",omitempty"`
	f string
	G bool
}

// WriteEmpty has fields which are always written.
type WriteEmpty struct {
	A int64  `amino:"write_empty"`
	B string `amino:"write_empty"`
	C []byte `amino:"write_empty"`
	D bool   `amino:"write_empty"`
	E Leaf   `amino:"write_empty"`
	F int8
	G []int32 `amino:"write_empty"`
	H *int16  `amino:"write_empty"`
}

// Wide has field numbers that need a two-byte key.
type Wide struct {
	F1, F2, F3, F4, F5, F6, F7, F8, F9, F10, F11, F12, F13, F14 bool
	F15                                                         uint16
	F16                                                         uint64
	F17                                                         string
	F18                                                         Leaf
	F19                                                         []int8
	F20                                                         []string
	F21                                                         *Leaf
	F22                                                         uint32 `binary:"fixed32"`
}

// Node is a recursive type.
type Node struct {
	V    int16
	Next *Node
	Kids []Node
}

type Empty struct{}

type HoldsEmpty struct {
	A Empty
	B *Empty
	C int8
}

// ---- lists

type PackedLists struct {
	A []int64
	B []int8
	C []bool
	D []uint32
	E [3]int16
	F []uint16
}

type FixedLists struct {
	A []int64   `binary:"fixed64"`
	B []uint32  `binary:"fixed32"`
	C [2]uint64 `binary:"fixed64"`
	D []float64 `amino:"unsafe"`
	E []float32 `amino:"unsafe"`
}

type TextLists struct {
	A []string
	B [][]byte
	C [2]string
	D [][3]byte
	E [2][]byte
}

type StructLists struct {
	A []Leaf
	B []*Leaf
	C [2]Leaf
	D [2]*Leaf
	E []*Leaf `amino:"empty_elements"`
	F []Leaf  `amino:"empty_elements"`
}

// Rich has a part that lives elsewhere in memory of every kind.
type Rich struct {
	P *int32
	B []byte
	L []int16
	N *Leaf
	S string
	T [2]byte
	M []*Leaf
	I *time.Time
}

type RichLists struct {
	A []Rich
	B []*Rich
	C [2]Rich
	D *Rich
	E []Rich `amino:"empty_elements"`
}

// ArrayLists has lists whose elements are lists.
type ArrayLists struct {
	A [][1]*string
	B [][2]*Leaf
	C [][2]string
	D [2][]*string
	E [][]string
	F [2]*[2]*Leaf
}

type PtrLists struct {
	A []*int64
	B []*string
	C [2]*uint8
	D []**int16
	F []***int16
	E []*bool
}

type TimeLists struct {
	A []time.Time
	B []*time.Time
	C [2]time.Time
}

type NamedLists struct {
	A []MyInt
	B []MyStr
	C []MyBytes
	D *[]int16
	E *[]string
}

type ListsInLists struct {
	A []struct {
		X []uint8
		Y []string
		Z []Leaf
	}
	B []PackedLists
}

// Arrays of all sorts.
type Arrays struct {
	A [1]int
	B [2]bool
	C [3]uint32
	D [2]int64 `binary:"fixed64"`
	E [0]int8
	F [2]Leaf
	G [1]*Leaf
	H [0]string
	I [32]byte
	J [2][2]byte
	K [2]*int16
	L int8
}

// WideLists has lists with field numbers around 16.
type WideLists struct {
	F1, F2, F3, F4, F5, F6, F7, F8, F9, F10, F11, F12, F13 bool
	F14                                                    []int32
	F15                                                    []string
	F16                                                    []string
	F17                                                    []Leaf
	F18                                                    [2]string
	F19                                                    []uint64 `binary:"fixed64"`
	F20                                                    [][]byte
}

// LongLists for lists with many elements.
type LongLists struct {
	A []int64
	B []string
	C []Leaf
	D []uint32 `binary:"fixed32"`
	E [][]byte
	F int8
}

// ---- interfaces

type Animal interface{ Sound() int }
type Shape interface{ Area() int }

type Dog struct {
	Name string
	Age  int64
}

type Cat struct{ Lives uint8 }

type Fish int64
type Tag string
type Blob [4]byte
type Data []byte
type Nums []int16
type Words []string
type Pack []Leaf

func (Dog) Sound() int   { return 1 }
func (*Cat) Sound() int  { return 2 }
func (Fish) Sound() int  { return 3 }
func (Tag) Sound() int   { return 4 }
func (Blob) Sound() int  { return 5 }
func (Data) Sound() int  { return 6 }
func (Nums) Sound() int  { return 7 }
func (Words) Sound() int { return 8 }
func (Pack) Sound() int  { return 9 }

// Square implements only Shape, Both both interfaces.
type Square struct{ Side int32 }
type Both struct{ In Animal }

func (Square) Area() int { return 1 }
func (Both) Area() int   { return 2 }
func (Both) Sound() int  { return 10 }

// Bird has times, lists and options inside.
type Bird struct {
	At   time.Time
	Wing uint32 `binary:"fixed32"`
	Nest []string
	Fly  bool
	Egg  *Leaf
}

func (Bird) Sound() int { return 11 }

type Zoo struct {
	A Animal
	B Shape
	C []Animal
	D []Shape
	E [2]Animal
	F int8
}

// Herd has interface values in deeper places.
type Herd struct {
	A []Cage
	B *Cage
	C [1]Cage
	D Animal `amino:"write_empty"`
	E []Animal
	F Shape
}

type Cage struct {
	Pre int16
	In  Animal
	Out string
}

const (
	nameDog    = "zoo/Dog"
	nameCat    = "zoo/Cat"
	nameFish   = "zoo/Fish"
	nameTag    = "zoo/Tag"
	nameBlob   = "zoo/Blob"
	nameData   = "zoo/Data"
	nameNums   = "zoo/Nums"
	nameWords  = "zoo/Words"
	namePack   = "zoo/Pack"
	nameSquare = "zoo/Square"
	nameBoth   = "zoo/Both"
	nameBird   = "zoo/Bird"
)

// ---- time

type Times struct {
	A time.Time
	B *time.Time
	C int8
	D time.Time `amino:"write_empty"`
}

// zoo registers the interface types; disamb: write disambiguation bytes for Animal.
func zoo(disamb bool) *amino.Codec {
	cdc := amino.NewCodec()
	if disamb {
		cdc.RegisterInterface((*Animal)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true})
	} else {
		cdc.RegisterInterface((*Animal)(nil), nil)
	}
	cdc.RegisterInterface((*Shape)(nil), nil)
	cdc.RegisterConcrete(Dog{}, nameDog, nil)
	cdc.RegisterConcrete(&Cat{}, nameCat, nil)
	cdc.RegisterConcrete(Fish(0), nameFish, nil)
	cdc.RegisterConcrete(Tag(""), nameTag, nil)
	cdc.RegisterConcrete(Blob{}, nameBlob, nil)
	cdc.RegisterConcrete(Data{}, nameData, nil)
	cdc.RegisterConcrete(Nums{}, nameNums, nil)
	cdc.RegisterConcrete(Words{}, nameWords, nil)
	cdc.RegisterConcrete(Pack{}, namePack, nil)
	cdc.RegisterConcrete(Square{}, nameSquare, nil)
	cdc.RegisterConcrete(Both{}, nameBoth, nil)
	cdc.RegisterConcrete(Bird{}, nameBird, nil)
	return cdc
}

var cdc = amino.NewCodec()
var zcdc = zoo(false)
var dcdc = zoo(true)
