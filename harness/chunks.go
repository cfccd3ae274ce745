package main

import (
	"encoding/json"
	"unicode/utf8"
)

// Chunks is what each Read of the Stdin returns. A chunk may end in the middle
// of a character (or hold no valid UTF-8 at all), which a JSON string cannot
// express: in JSON each byte is the character of that number.
type Chunks []string

func (c Chunks) MarshalJSON() ([]byte, error) {
	out := make([]string, len(c))
	for i, s := range c {
		r := make([]rune, len(s))
		for j := 0; j < len(s); j++ {
			r[j] = rune(s[j])
		}
		out[i] = string(r)
	}
	return json.Marshal(out)
}

func (c *Chunks) UnmarshalJSON(b []byte) error {
	var in []string
	if err := json.Unmarshal(b, &in); err != nil {
		return err
	}
	*c = make(Chunks, len(in))
	for i, s := range in {
		var o []byte
		for _, r := range s {
			o = append(o, byte(r))
		}
		(*c)[i] = string(o)
	}
	return nil
}

// whole moves the ends of the chunks out of the characters: what the program
// itself puts in front of the input goes between two reads, even if they split
// a character
func (c Chunks) whole() Chunks {
	var out Chunks
	left := ""
	for _, s := range c {
		if s == eintr {
			out = append(out, s)
			continue
		}
		s = left + s
		n := len(s)
		for i := 1; i <= 3 && i <= len(s); i++ {
			if utf8.RuneStart(s[len(s)-i]) {
				if !utf8.FullRuneInString(s[len(s)-i:]) {
					n = len(s) - i
				}
				break
			}
		}
		if n > 0 {
			out = append(out, s[:n])
		}
		left = s[n:]
	}
	if left != "" {
		out = append(out, left)
	}
	return out
}
