package goabnf

import strings "strings"

func vr__checkBounds(str, base string) error {
	str = strings.TrimLeft(str, "0")
	switch base {

	case "B", "b":

		if len(str) > 21 ||
			(len(str) == 21 && (str[1] != '0' || str[2] != '0' || str[3] != '0' || str[4] != '0')) {
			return &ErrTooLargeNumeral{
				Base:  base,
				Value: str,
			}
		}

	case "D", "d":

		if len(str) > 7 ||
			(len(str) == 7 && (str[0] > '1' || (str[0] == '1' && (str[1] > '1' || (str[1] == '1' && (str[2] > '1' || (str[2] == '1' && (str[3] > '4' || (str[3] == '4' && (str[4] > '1' || (str[4] == '1' && (str[5] > '1' || (str[5] == '1' && str[6] > '1'))))))))))))) {
			return &ErrTooLargeNumeral{
				Base:  base,
				Value: str,
			}
		}

	case "X", "x":

		if len(str) > 6 ||
			(len(str) == 6 && (str[0] > '1' || (str[0] == '1' && (str[1] > '0')))) {
			return &ErrTooLargeNumeral{
				Base:  base,
				Value: str,
			}
		}
	}

	return nil
}
