package xdoc

define styled(i xdoc.Styled, cs style.Classes, sty style.Styles) = inline(i.Mutators, inClasses(i.Classes, cs, sty))
define styledSel(i xdoc.Styled, sel string, cs style.Classes, sty style.Styles) = inline(i.Mutators, inSelected(i.Classes, sel, cs, sty))

func xdoc.(*Styled).MutatedStyles(i, cs, styles) returns (r) {
	modifies nothing
	props C08
	ensures styled: r == styled(*i, cs, styles)
	inv (?s style.Styles): ?s == inline(i.Mutators[0:$k], inClasses(i.Classes, cs, styles))
}
func xdoc.(*Styled).MutatedStylesWithSelector(i, sel, cs, styles) returns (r) {
	modifies nothing
	props C08
	ensures styled: r == styledSel(*i, sel, cs, styles)
	inv (?s style.Styles): ?s == inline(i.Mutators[0:$k], inSelected(i.Classes, sel, cs, styles))
}
func xdoc.(*NoStyles).MutatedStyles(i, cs, styles) returns (r) {
	modifies nothing
	props C08
	ensures r == styles
}
func xdoc.(*NoStyles).MutatedStylesWithSelector(i, sel, cs, styles) returns (r) {
	modifies nothing
	props C08
	ensures r == styles
}
