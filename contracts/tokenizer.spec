# Tokeniser and digit conversion
define isdig(r) = (r >= 48 && r <= 57) || r == 58
define islet(r) = (r >= 65 && r <= 90) || (r >= 97 && r <= 122)
define cls(r) = ite(isdig(r), 1, ite(islet(r), 2, 3))

func tokenizer.Tokenize(str)
	freshornil
	ensures [C13] sumrunes(result, "Text", len(result)) == runecount(str)
	ensures [C13] forall(j, 0, len(result), forall(k, 0, runecount(result[j].Text), runeof(result[j].Text, k) == runeof(str, sumrunes(result, "Text", j) + k)))
	ensures [C13] forall(j, 0, len(result), result[j].Text != "" && (result[j].Type == tokenizer.Digit || result[j].Type == tokenizer.Letter || result[j].Type == tokenizer.Other))
	ensures [C13] forall(j, 0, len(result), forall(k, 0, runecount(result[j].Text), cls(runeof(result[j].Text, k)) == result[j].Type))
	invariant sumrunes($s1, "Text", len($s1)) + len($s2) == $i
	invariant forall(k, 0, len($s2), $s2[k] == runeof(str, $i - len($s2) + k))
	invariant forall(k, 0, len($s2), cls($s2[k]) == cls(runeof(str, $i - 1)))
	invariant forall(j, 0, len($s1), $s1[j].Text != "" && ($s1[j].Type == 1 || $s1[j].Type == 2 || $s1[j].Type == 3))
	invariant forall(j, 0, len($s1), forall(k, 0, runecount($s1[j].Text), runeof($s1[j].Text, k) == runeof(str, sumrunes($s1, "Text", j) + k)))
	invariant forall(j, 0, len($s1), forall(k, 0, runecount($s1[j].Text), cls(runeof($s1[j].Text, k)) == $s1[j].Type))

func (tokenizer.Token).IsEmpty(t)
	ensures [C13] result == (t.Text == "" && t.Type == tokenizer.Null)
