// Command vh drives the real code and records traces for the specification.
package main

import (
	"os"

	"vharness/vh"
)

func main() {
	if len(os.Args) == 6 && os.Args[1] == "cc-child" {
		ccChild(os.Args[2:])
		return
	}
	vh.Main([]vh.Prop{
		{ID: "C01", Families: c01Families},
		{ID: "C02", Families: c02Families, HeapLimit: 12 << 30},
		{ID: "C03", Families: c03Families},
		{ID: "C04", Families: c04Families},
		{ID: "C05", Families: c05Families},
		{ID: "C06", Families: c06Families},
		{ID: "C07", Families: c07Families},
		{ID: "C09", Families: c09Families},
		{ID: "C10", Families: c10Families},
		{ID: "C15", Families: c15Families},
		{ID: "C11", Families: c11Families},
		{ID: "C12", Families: c12Families},
		{ID: "C13", Families: c13Families},
		{ID: "C08", Families: c08Families},
		{ID: "C14", Families: c14Families},
		{ID: "C20", Families: c20Families},
		{ID: "C16", Families: c16Families},
		{ID: "C17", Families: c17Families},
		{ID: "C18", Families: c18Families},
		{ID: "C19", Families: c19Families},
	})
}
