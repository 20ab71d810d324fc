#!/usr/bin/perl
# Writes the Unicode data the property C25 is checked against: perl's copy of the Unicode character database (15.0),
# without what was added after 14.0.  One line per value: kind, names (all aliases), ranges.
use strict; use warnings;
use Unicode::UCD qw(prop_invlist prop_values prop_value_aliases prop_aliases);
print "# Unicode ", Unicode::UCD::UnicodeVersion(), "\n";
my @new = prop_invlist("age=15.0");
sub out {
	my ($kind, $names, @l) = @_;
	my @r;
	while (@l) { my $a = shift @l; my $b = @l ? (shift @l) - 1 : 0x10FFFF; push @r, sprintf("%X-%X", $a, $b); }
	my %s; my @n = grep { !$s{lc $_}++ } map { s/[ -]/_/gr } @$names;
	print join("\t", $kind, join(",", map { lc } @n), join(" ", @r)), "\n";
}
out("new", ["new"], @new);
for my $p (qw(AHex Alpha Bidi_C Bidi_M Cased CI Dash Dep DI Dia Emoji Emoji_Component Emoji_Modifier Emoji_Modifier_Base Emoji_Presentation Ext Extended_Pictographic Gr_Base Gr_Ext Hex IDC Ideo IDS IDSB IDST Join_C LOE Lower Math NChar Pat_Syn Pat_WS PCM QMark Radical RI SD STerm Term UIdeo Upper VS WSpace XIDC XIDS)) {
	my @l = prop_invlist($p);
	my @n = prop_aliases($p);
	die $p unless @n;
	out("binary", \@n, @l);
}
for my $p (["gc", "General_Category"], ["sc", "Script"], ["scx", "Script_Extensions"], ["age", "Age"], ["blk", "Block"]) {
	for my $v (sort(prop_values($p->[0]))) {
		my @n = prop_value_aliases($p->[0], $v);
		out($p->[0], \@n, prop_invlist("$p->[1]=$v"));
	}
}
