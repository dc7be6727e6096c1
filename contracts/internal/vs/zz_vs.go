// Package vs holds the specification vocabulary of the contracts. It is only
// ever type-checked and interpreted by the verifier (gover); it is never
// compiled into the product.
package vs

type Seq[T any] struct{ _ [0]T }

func (Seq[T]) Len() int            { panic("spec") }
func (Seq[T]) At(i int) T          { panic("spec") }
func (s Seq[T]) Push(v T) Seq[T]   { panic("spec") }
func (s Seq[T]) Take(n int) Seq[T] { panic("spec") }
func (s Seq[T]) Set(i int, v T) Seq[T] { panic("spec") }

type MapVal[K comparable, V any] struct {
	_ [0]K
	_ [0]V
}

func (MapVal[K, V]) Has(k K) bool { panic("spec") }
func (MapVal[K, V]) At(k K) V     { panic("spec") }
func (MapVal[K, V]) Len() int     { panic("spec") }

func Assume(c bool)
func Assert(label string, c bool)
func Lemma(label string, c bool)
func Requires(c bool)
func Ensures(label string, c bool)
func Modifies(ptrs ...any)
func Focus(on bool) // off: no loop invariants are sought and no panics checked here
func Reach(label string)
func Unreachable(label string)
func Imp(a, b bool) bool
func Iff(a, b bool) bool
func Ite[T any](c bool, a, b T) T { panic("spec") }
func Any[T any](name string) T    { panic("spec") }
func Forall[A any](f func(A) bool) bool { panic("spec") }
func Exists[A any](f func(A) bool) bool { panic("spec") }
func Forall2[A, B any](f func(A, B) bool) bool { panic("spec") }
func Exists2[A, B any](f func(A, B) bool) bool { panic("spec") }
func Forall3[A, B, C any](f func(A, B, C) bool) bool { panic("spec") }
func Eq[T any](a, b T) bool { panic("spec") }
func Fresh[T any](p *T) bool { panic("spec") }
func Whole[T any](p *T) bool { panic("spec") } // p points to a whole variable, not into one
func FreshSlice[T any](p []T) bool { panic("spec") }
func Fork(f func())
func Try(f func()) bool
func Mark() int
func At[T any](mark int, f func() T) T { panic("spec") }
func OnlyModified(mark int, ptrs ...any) bool
func Snap[T any](s []T) Seq[T] { panic("spec") }
func EmptySeq[T any]() Seq[T]  { panic("spec") }
func SnapMap[K comparable, V any](m map[K]V) MapVal[K, V] { panic("spec") }
func UF[T any](name string, args ...any) T { panic("spec") }
func Init()
func Off[T any](s []T) int { panic("spec") } // where s begins in its array
func Abs[T any](s []T, j int) T { panic("spec") } // element j of that array (s[i] is Abs(s, Off(s)+i))
func Visited[K any](k K) bool { panic("spec") } // the map iteration of the loop at hand has been at k
func Ranged[K any](k K) bool { panic("spec") } // the map had k when that iteration began
func Base[T any](s []T) int { panic("spec") } // identifies the array s lies in
func Const[T any](p *T) { panic("spec") } // the ghost variable *p keeps its value from here on
func TypeIs[T any](v any) bool { panic("spec") }
func Byte(s string, i int) int

// channels: history of sent elements and number received
func TheChan[T any]() chan T             { panic("spec") } // the last channel made with this element type
func ChanSent[T any](c chan T) int      { panic("spec") }
func ChanRecvd[T any](c chan T) int     { panic("spec") }
func ChanClosed[T any](c chan T) bool   { panic("spec") }
func ChanAt[T any](c chan T, i int) T   { panic("spec") }

// JSON: SameJSON compares wire shapes (member names, options, kinds); Decode
// fills *out from the members of the JSON text data; Member is one member.
func SameJSON[A, B any]() bool { panic("spec") }
func Decode(out any, data string)
func Member[T any](data string, name string) T { panic("spec") }
