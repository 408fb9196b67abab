// fontprops decides the properties about fonts, builders and caches.
package main

import "github.com/tinne26/ggfnt/zzverif/pbt"

var props []*pbt.Prop

func register(p *pbt.Prop) { props = append(props, p) }

func main() { pbt.Main(props) }
