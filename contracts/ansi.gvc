# C19: colouring of text (ansi/ansi.go)
package ansi

# a colour sequence: ESC [ digits and semicolons m
pred isEsc(x) = len(x) >= 4 && x[0] == 27 && x[1] == 91 && x[len(x)-1] == 109
|   && (forall i int :: {x[i]} 2 <= i && i < len(x) - 1 ==> (48 <= x[i] && x[i] <= 57) || x[i] == 59)
# r is the text s in colour
pred colored(r, s) = len(r) >= len(s) + 8
|   && isEsc(r[0:len(r)-len(s)-4]) && r == r[0:len(r)-len(s)-4] + s + "\x1b[0m"
pred painted(c, r, s) = c.enabled ? colored(r, s) : r == s

func (*Colorer).Fg(c, s, color, style) (r)
  props C19
  requires 0 <= color && color <= 8
  modifies
  ensures [text] painted(c, r, s)

func (*Colorer).FgBg(c, s, fgColor, fgStyle, bgColor, bgStyle) (r)
  props C19
  merge
  requires 0 <= fgColor && fgColor <= 8 && 0 <= bgColor && bgColor <= 8
  modifies
  ensures [text] painted(c, r, s)
