package main

import (
	"fmt"
	"unicode/utf8"
)

func fullRune(b []byte) bool          { return utf8.FullRune(b) }
func decodeRune(b []byte) (rune, int) { return utf8.DecodeRune(b) }

var sprintf = fmt.Sprintf

var errf = fmt.Errorf
