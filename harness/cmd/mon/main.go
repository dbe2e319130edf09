// Command mon runs the monitors that use the public API of the repository.
package main

import "aqwari.net/xml/verif/core"

var props []*core.Prop

func register(p *core.Prop) { props = append(props, p) }

func main() { core.Main(props) }
