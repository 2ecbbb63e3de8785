package harness

import "reflect"

// Types with methods of those names that are not the pair: they are copied
// like any other.
type (
	acBase struct {
		N int
		L []string
		P *int
	}
	ACNot0  acBase
	ACNot1  acBase
	ACNot2  acBase
	ACNot3  acBase
	ACNot4  acBase
	ACNot5  acBase
	ACNot6  acBase
	ACNot7  acBase
	ACNot8  acBase
	ACNot9  acBase
	ACNot10 acBase
	DCNot1  acBase
	DCNot2  acBase
	DCNot3  acBase
)

func (ACNot0) MarshalAmino() (int, error)         { panic("never") }
func (ACNot1) MarshalAmino() (int, error)         { panic("never") }
func (*ACNot1) UnmarshalAmino() error             { panic("never") }
func (ACNot2) MarshalAmino() (int, error)         { panic("never") }
func (*ACNot2) UnmarshalAmino(int, int) error     { panic("never") }
func (ACNot3) MarshalAmino() (int, error)         { panic("never") }
func (*ACNot3) UnmarshalAmino(int)                { panic("never") }
func (ACNot4) MarshalAmino() (int, error)         { panic("never") }
func (*ACNot4) UnmarshalAmino(int) int            { panic("never") }
func (ACNot5) MarshalAmino() (int, error)         { panic("never") }
func (*ACNot5) UnmarshalAmino(int) (error, error) { panic("never") }
func (ACNot6) MarshalAmino(int) (int, error)      { panic("never") }
func (*ACNot6) UnmarshalAmino(int) error          { panic("never") }
func (ACNot7) MarshalAmino() int                  { panic("never") }
func (*ACNot7) UnmarshalAmino(int) error          { panic("never") }
func (ACNot8) MarshalAmino() (int, int)           { panic("never") }
func (*ACNot8) UnmarshalAmino(int) error          { panic("never") }
func (ACNot9) MarshalAmino() (int, error)         { panic("never") }
func (*ACNot9) UnmarshalAmino(int64) error        { panic("never") }
func (*ACNot10) UnmarshalAmino(int) error         { panic("never") }
func (DCNot1) DeepCopy()                          { panic("never") }
func (DCNot2) DeepCopy() (DCNot2, error)          { panic("never") }
func (*DCNot3) DeepCopy() (*DCNot3, bool)         { panic("never") }

var copyNotPairs = []reflect.Type{tof(ACNot0{}), tof(ACNot1{}), tof(ACNot2{}), tof(ACNot3{}), tof(ACNot4{}), tof(ACNot5{}), tof(ACNot6{}), tof(ACNot7{}), tof(ACNot8{}), tof(ACNot9{}),
	tof(ACNot10{}), tof(DCNot1{}), tof(DCNot2{}), tof(DCNot3{})}
