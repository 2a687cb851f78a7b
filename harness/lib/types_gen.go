// Code generated by tools/gentypes.py. DO NOT EDIT.
package lib

import "time"

var _ time.Time

func (h *TypeHub) EchoBool(v bool) bool { h.Rec.Add("EchoBool", h.conn(), v); return v }
func (h *TypeHub) UploadBool(c <-chan bool) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadBool", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoBool(v bool) bool { h.Rec.Add("EchoBool", h.conn(), v); return v }
func (h *TypeReceiver) UploadBool(c <-chan bool) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadBool", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamBool(vs []bool) <-chan bool {
	h.Rec.Add("StreamBool", h.conn(), vs)
	c := make(chan bool)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoInt(v int) int { h.Rec.Add("EchoInt", h.conn(), v); return v }
func (h *TypeHub) UploadInt(c <-chan int) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInt", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoInt(v int) int { h.Rec.Add("EchoInt", h.conn(), v); return v }
func (h *TypeReceiver) UploadInt(c <-chan int) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInt", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamInt(vs []int) <-chan int {
	h.Rec.Add("StreamInt", h.conn(), vs)
	c := make(chan int)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoInt8(v int8) int8 { h.Rec.Add("EchoInt8", h.conn(), v); return v }
func (h *TypeHub) UploadInt8(c <-chan int8) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInt8", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoInt8(v int8) int8 { h.Rec.Add("EchoInt8", h.conn(), v); return v }
func (h *TypeReceiver) UploadInt8(c <-chan int8) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInt8", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamInt8(vs []int8) <-chan int8 {
	h.Rec.Add("StreamInt8", h.conn(), vs)
	c := make(chan int8)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoInt16(v int16) int16 { h.Rec.Add("EchoInt16", h.conn(), v); return v }
func (h *TypeHub) UploadInt16(c <-chan int16) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInt16", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoInt16(v int16) int16 { h.Rec.Add("EchoInt16", h.conn(), v); return v }
func (h *TypeReceiver) UploadInt16(c <-chan int16) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInt16", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamInt16(vs []int16) <-chan int16 {
	h.Rec.Add("StreamInt16", h.conn(), vs)
	c := make(chan int16)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoInt32(v int32) int32 { h.Rec.Add("EchoInt32", h.conn(), v); return v }
func (h *TypeHub) UploadInt32(c <-chan int32) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInt32", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoInt32(v int32) int32 { h.Rec.Add("EchoInt32", h.conn(), v); return v }
func (h *TypeReceiver) UploadInt32(c <-chan int32) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInt32", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamInt32(vs []int32) <-chan int32 {
	h.Rec.Add("StreamInt32", h.conn(), vs)
	c := make(chan int32)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoInt64(v int64) int64 { h.Rec.Add("EchoInt64", h.conn(), v); return v }
func (h *TypeHub) UploadInt64(c <-chan int64) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInt64", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoInt64(v int64) int64 { h.Rec.Add("EchoInt64", h.conn(), v); return v }
func (h *TypeReceiver) UploadInt64(c <-chan int64) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInt64", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamInt64(vs []int64) <-chan int64 {
	h.Rec.Add("StreamInt64", h.conn(), vs)
	c := make(chan int64)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoUint(v uint) uint { h.Rec.Add("EchoUint", h.conn(), v); return v }
func (h *TypeHub) UploadUint(c <-chan uint) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadUint", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoUint(v uint) uint { h.Rec.Add("EchoUint", h.conn(), v); return v }
func (h *TypeReceiver) UploadUint(c <-chan uint) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadUint", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamUint(vs []uint) <-chan uint {
	h.Rec.Add("StreamUint", h.conn(), vs)
	c := make(chan uint)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoUint8(v uint8) uint8 { h.Rec.Add("EchoUint8", h.conn(), v); return v }
func (h *TypeHub) UploadUint8(c <-chan uint8) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadUint8", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoUint8(v uint8) uint8 { h.Rec.Add("EchoUint8", h.conn(), v); return v }
func (h *TypeReceiver) UploadUint8(c <-chan uint8) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadUint8", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamUint8(vs []uint8) <-chan uint8 {
	h.Rec.Add("StreamUint8", h.conn(), vs)
	c := make(chan uint8)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoUint16(v uint16) uint16 { h.Rec.Add("EchoUint16", h.conn(), v); return v }
func (h *TypeHub) UploadUint16(c <-chan uint16) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadUint16", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoUint16(v uint16) uint16 { h.Rec.Add("EchoUint16", h.conn(), v); return v }
func (h *TypeReceiver) UploadUint16(c <-chan uint16) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadUint16", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamUint16(vs []uint16) <-chan uint16 {
	h.Rec.Add("StreamUint16", h.conn(), vs)
	c := make(chan uint16)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoUint32(v uint32) uint32 { h.Rec.Add("EchoUint32", h.conn(), v); return v }
func (h *TypeHub) UploadUint32(c <-chan uint32) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadUint32", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoUint32(v uint32) uint32 { h.Rec.Add("EchoUint32", h.conn(), v); return v }
func (h *TypeReceiver) UploadUint32(c <-chan uint32) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadUint32", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamUint32(vs []uint32) <-chan uint32 {
	h.Rec.Add("StreamUint32", h.conn(), vs)
	c := make(chan uint32)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoUint64(v uint64) uint64 { h.Rec.Add("EchoUint64", h.conn(), v); return v }
func (h *TypeHub) UploadUint64(c <-chan uint64) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadUint64", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoUint64(v uint64) uint64 { h.Rec.Add("EchoUint64", h.conn(), v); return v }
func (h *TypeReceiver) UploadUint64(c <-chan uint64) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadUint64", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamUint64(vs []uint64) <-chan uint64 {
	h.Rec.Add("StreamUint64", h.conn(), vs)
	c := make(chan uint64)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoFloat32(v float32) float32 { h.Rec.Add("EchoFloat32", h.conn(), v); return v }
func (h *TypeHub) UploadFloat32(c <-chan float32) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadFloat32", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoFloat32(v float32) float32 {
	h.Rec.Add("EchoFloat32", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadFloat32(c <-chan float32) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadFloat32", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamFloat32(vs []float32) <-chan float32 {
	h.Rec.Add("StreamFloat32", h.conn(), vs)
	c := make(chan float32)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoFloat64(v float64) float64 { h.Rec.Add("EchoFloat64", h.conn(), v); return v }
func (h *TypeHub) UploadFloat64(c <-chan float64) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadFloat64", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoFloat64(v float64) float64 {
	h.Rec.Add("EchoFloat64", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadFloat64(c <-chan float64) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadFloat64", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamFloat64(vs []float64) <-chan float64 {
	h.Rec.Add("StreamFloat64", h.conn(), vs)
	c := make(chan float64)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoString(v string) string { h.Rec.Add("EchoString", h.conn(), v); return v }
func (h *TypeHub) UploadString(c <-chan string) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadString", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoString(v string) string { h.Rec.Add("EchoString", h.conn(), v); return v }
func (h *TypeReceiver) UploadString(c <-chan string) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadString", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamString(vs []string) <-chan string {
	h.Rec.Add("StreamString", h.conn(), vs)
	c := make(chan string)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoBytes(v []byte) []byte { h.Rec.Add("EchoBytes", h.conn(), v); return v }
func (h *TypeHub) UploadBytes(c <-chan []byte) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadBytes", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoBytes(v []byte) []byte { h.Rec.Add("EchoBytes", h.conn(), v); return v }
func (h *TypeReceiver) UploadBytes(c <-chan []byte) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadBytes", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamBytes(vs [][]byte) <-chan []byte {
	h.Rec.Add("StreamBytes", h.conn(), vs)
	c := make(chan []byte)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoColor(v Color) Color { h.Rec.Add("EchoColor", h.conn(), v); return v }
func (h *TypeHub) UploadColor(c <-chan Color) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadColor", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoColor(v Color) Color { h.Rec.Add("EchoColor", h.conn(), v); return v }
func (h *TypeReceiver) UploadColor(c <-chan Color) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadColor", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamColor(vs []Color) <-chan Color {
	h.Rec.Add("StreamColor", h.conn(), vs)
	c := make(chan Color)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoTime(v time.Time) time.Time { h.Rec.Add("EchoTime", h.conn(), v); return v }
func (h *TypeHub) UploadTime(c <-chan time.Time) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadTime", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoTime(v time.Time) time.Time { h.Rec.Add("EchoTime", h.conn(), v); return v }
func (h *TypeReceiver) UploadTime(c <-chan time.Time) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadTime", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamTime(vs []time.Time) <-chan time.Time {
	h.Rec.Add("StreamTime", h.conn(), vs)
	c := make(chan time.Time)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoInner(v Inner) Inner { h.Rec.Add("EchoInner", h.conn(), v); return v }
func (h *TypeHub) UploadInner(c <-chan Inner) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInner", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoInner(v Inner) Inner { h.Rec.Add("EchoInner", h.conn(), v); return v }
func (h *TypeReceiver) UploadInner(c <-chan Inner) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInner", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamInner(vs []Inner) <-chan Inner {
	h.Rec.Add("StreamInner", h.conn(), vs)
	c := make(chan Inner)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoDeep(v Deep) Deep { h.Rec.Add("EchoDeep", h.conn(), v); return v }
func (h *TypeHub) UploadDeep(c <-chan Deep) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadDeep", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoDeep(v Deep) Deep { h.Rec.Add("EchoDeep", h.conn(), v); return v }
func (h *TypeReceiver) UploadDeep(c <-chan Deep) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadDeep", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamDeep(vs []Deep) <-chan Deep {
	h.Rec.Add("StreamDeep", h.conn(), vs)
	c := make(chan Deep)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoPInner(v *Inner) *Inner { h.Rec.Add("EchoPInner", h.conn(), v); return v }
func (h *TypeHub) UploadPInner(c <-chan *Inner) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadPInner", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoPInner(v *Inner) *Inner { h.Rec.Add("EchoPInner", h.conn(), v); return v }
func (h *TypeReceiver) UploadPInner(c <-chan *Inner) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadPInner", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamPInner(vs []*Inner) <-chan *Inner {
	h.Rec.Add("StreamPInner", h.conn(), vs)
	c := make(chan *Inner)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoPInt(v *int) *int { h.Rec.Add("EchoPInt", h.conn(), v); return v }
func (h *TypeHub) UploadPInt(c <-chan *int) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadPInt", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoPInt(v *int) *int { h.Rec.Add("EchoPInt", h.conn(), v); return v }
func (h *TypeReceiver) UploadPInt(c <-chan *int) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadPInt", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamPInt(vs []*int) <-chan *int {
	h.Rec.Add("StreamPInt", h.conn(), vs)
	c := make(chan *int)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoInts(v []int) []int { h.Rec.Add("EchoInts", h.conn(), v); return v }
func (h *TypeHub) UploadInts(c <-chan []int) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInts", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoInts(v []int) []int { h.Rec.Add("EchoInts", h.conn(), v); return v }
func (h *TypeReceiver) UploadInts(c <-chan []int) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInts", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamInts(vs [][]int) <-chan []int {
	h.Rec.Add("StreamInts", h.conn(), vs)
	c := make(chan []int)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoStrings(v []string) []string { h.Rec.Add("EchoStrings", h.conn(), v); return v }
func (h *TypeHub) UploadStrings(c <-chan []string) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadStrings", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoStrings(v []string) []string {
	h.Rec.Add("EchoStrings", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadStrings(c <-chan []string) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadStrings", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamStrings(vs [][]string) <-chan []string {
	h.Rec.Add("StreamStrings", h.conn(), vs)
	c := make(chan []string)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoFloats(v []float64) []float64 { h.Rec.Add("EchoFloats", h.conn(), v); return v }
func (h *TypeHub) UploadFloats(c <-chan []float64) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadFloats", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoFloats(v []float64) []float64 {
	h.Rec.Add("EchoFloats", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadFloats(c <-chan []float64) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadFloats", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamFloats(vs [][]float64) <-chan []float64 {
	h.Rec.Add("StreamFloats", h.conn(), vs)
	c := make(chan []float64)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoBools(v []bool) []bool { h.Rec.Add("EchoBools", h.conn(), v); return v }
func (h *TypeHub) UploadBools(c <-chan []bool) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadBools", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoBools(v []bool) []bool { h.Rec.Add("EchoBools", h.conn(), v); return v }
func (h *TypeReceiver) UploadBools(c <-chan []bool) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadBools", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamBools(vs [][]bool) <-chan []bool {
	h.Rec.Add("StreamBools", h.conn(), vs)
	c := make(chan []bool)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoInners(v []Inner) []Inner { h.Rec.Add("EchoInners", h.conn(), v); return v }
func (h *TypeHub) UploadInners(c <-chan []Inner) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInners", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoInners(v []Inner) []Inner { h.Rec.Add("EchoInners", h.conn(), v); return v }
func (h *TypeReceiver) UploadInners(c <-chan []Inner) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadInners", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamInners(vs [][]Inner) <-chan []Inner {
	h.Rec.Add("StreamInners", h.conn(), vs)
	c := make(chan []Inner)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoBytesList(v [][]byte) [][]byte {
	h.Rec.Add("EchoBytesList", h.conn(), v)
	return v
}
func (h *TypeHub) UploadBytesList(c <-chan [][]byte) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadBytesList", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoBytesList(v [][]byte) [][]byte {
	h.Rec.Add("EchoBytesList", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadBytesList(c <-chan [][]byte) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadBytesList", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamBytesList(vs [][][]byte) <-chan [][]byte {
	h.Rec.Add("StreamBytesList", h.conn(), vs)
	c := make(chan [][]byte)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoArray3(v [3]int) [3]int { h.Rec.Add("EchoArray3", h.conn(), v); return v }
func (h *TypeHub) UploadArray3(c <-chan [3]int) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadArray3", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoArray3(v [3]int) [3]int { h.Rec.Add("EchoArray3", h.conn(), v); return v }
func (h *TypeReceiver) UploadArray3(c <-chan [3]int) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadArray3", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamArray3(vs [][3]int) <-chan [3]int {
	h.Rec.Add("StreamArray3", h.conn(), vs)
	c := make(chan [3]int)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoMapSI(v map[string]int) map[string]int {
	h.Rec.Add("EchoMapSI", h.conn(), v)
	return v
}
func (h *TypeHub) UploadMapSI(c <-chan map[string]int) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapSI", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoMapSI(v map[string]int) map[string]int {
	h.Rec.Add("EchoMapSI", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadMapSI(c <-chan map[string]int) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapSI", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamMapSI(vs []map[string]int) <-chan map[string]int {
	h.Rec.Add("StreamMapSI", h.conn(), vs)
	c := make(chan map[string]int)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoMapSS(v map[string]string) map[string]string {
	h.Rec.Add("EchoMapSS", h.conn(), v)
	return v
}
func (h *TypeHub) UploadMapSS(c <-chan map[string]string) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapSS", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoMapSS(v map[string]string) map[string]string {
	h.Rec.Add("EchoMapSS", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadMapSS(c <-chan map[string]string) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapSS", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamMapSS(vs []map[string]string) <-chan map[string]string {
	h.Rec.Add("StreamMapSS", h.conn(), vs)
	c := make(chan map[string]string)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoMapIS(v map[int]string) map[int]string {
	h.Rec.Add("EchoMapIS", h.conn(), v)
	return v
}
func (h *TypeHub) UploadMapIS(c <-chan map[int]string) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapIS", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoMapIS(v map[int]string) map[int]string {
	h.Rec.Add("EchoMapIS", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadMapIS(c <-chan map[int]string) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapIS", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamMapIS(vs []map[int]string) <-chan map[int]string {
	h.Rec.Add("StreamMapIS", h.conn(), vs)
	c := make(chan map[int]string)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoMapSD(v map[string]Deep) map[string]Deep {
	h.Rec.Add("EchoMapSD", h.conn(), v)
	return v
}
func (h *TypeHub) UploadMapSD(c <-chan map[string]Deep) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapSD", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoMapSD(v map[string]Deep) map[string]Deep {
	h.Rec.Add("EchoMapSD", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadMapSD(c <-chan map[string]Deep) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapSD", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamMapSD(vs []map[string]Deep) <-chan map[string]Deep {
	h.Rec.Add("StreamMapSD", h.conn(), vs)
	c := make(chan map[string]Deep)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoMapSL(v map[string][]string) map[string][]string {
	h.Rec.Add("EchoMapSL", h.conn(), v)
	return v
}
func (h *TypeHub) UploadMapSL(c <-chan map[string][]string) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapSL", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoMapSL(v map[string][]string) map[string][]string {
	h.Rec.Add("EchoMapSL", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadMapSL(c <-chan map[string][]string) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapSL", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamMapSL(vs []map[string][]string) <-chan map[string][]string {
	h.Rec.Add("StreamMapSL", h.conn(), vs)
	c := make(chan map[string][]string)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoAny(v any) any { h.Rec.Add("EchoAny", h.conn(), v); return v }
func (h *TypeHub) UploadAny(c <-chan any) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadAny", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoAny(v any) any { h.Rec.Add("EchoAny", h.conn(), v); return v }
func (h *TypeReceiver) UploadAny(c <-chan any) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadAny", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamAny(vs []any) <-chan any {
	h.Rec.Add("StreamAny", h.conn(), vs)
	c := make(chan any)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoAnys(v []any) []any { h.Rec.Add("EchoAnys", h.conn(), v); return v }
func (h *TypeHub) UploadAnys(c <-chan []any) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadAnys", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoAnys(v []any) []any { h.Rec.Add("EchoAnys", h.conn(), v); return v }
func (h *TypeReceiver) UploadAnys(c <-chan []any) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadAnys", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamAnys(vs [][]any) <-chan []any {
	h.Rec.Add("StreamAnys", h.conn(), vs)
	c := make(chan []any)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
func (h *TypeHub) EchoMapSA(v map[string]any) map[string]any {
	h.Rec.Add("EchoMapSA", h.conn(), v)
	return v
}
func (h *TypeHub) UploadMapSA(c <-chan map[string]any) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapSA", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeReceiver) EchoMapSA(v map[string]any) map[string]any {
	h.Rec.Add("EchoMapSA", h.conn(), v)
	return v
}
func (h *TypeReceiver) UploadMapSA(c <-chan map[string]any) int {
	i := 0
	for v := range c {
		h.Rec.Add("UploadMapSA", h.conn(), v)
		i++
	}
	return i
}
func (h *TypeHub) StreamMapSA(vs []map[string]any) <-chan map[string]any {
	h.Rec.Add("StreamMapSA", h.conn(), vs)
	c := make(chan map[string]any)
	go func() {
		defer close(c)
		for _, v := range vs {
			select {
			case c <- v:
			case <-h.Context().Done():
				return
			}
		}
	}()
	return c
}
