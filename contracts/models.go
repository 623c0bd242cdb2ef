// Package models holds executable specifications of library functions that
// take a function as an argument: gover runs them in place of the call.
package models

// strings.Map returns the runes of s with mapping applied to each in order,
// without those that mapping makes negative.
func strings_Map(mapping func(rune) rune, s string) string {
	out := ""
	for _, r := range s {
		if m := mapping(r); m >= 0 {
			out += string(m)
		}
	}
	return out
}
