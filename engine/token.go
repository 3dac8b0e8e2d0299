package main

import "go/token"

func tokenOf(i int) token.Token {
	switch i {
	case 12:
		return token.ADD
	case 17:
		return token.AND
	case 18:
		return token.OR
	}
	panic("tokenOf")
}
