#!/usr/bin/perl
# harness/unidata.h: range tables of the Unicode properties B14 judges against (perl's own copy of the Unicode database).
use strict; use warnings; no warnings qw(surrogate nonchar non_unicode); use Unicode::UCD qw(prop_invmap);
my @gc = qw(Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn);
my ($l, $m) = prop_invmap("General_Category"); my %long = (); my @short;
print "/* generated by tools/gen_unidata.pl from Unicode ", Unicode::UCD::UnicodeVersion(), " */\n";
sub flags { my $c = chr($_[0]); my $f = 0; $f |= 1 if $c =~ /\p{Lowercase}/; $f |= 2 if $c =~ /\p{Uppercase}/; $f |= 4 if $c =~ /\p{Alphabetic}/; $f |= 8 if $c =~ /\p{Unified_Ideograph}/; $f |= 16 if $c =~ /\p{Present_In: 10.0}/; return $f; }
print "static const struct { uint32_t first; char gc[3]; uint8_t flags; } uni_runs[] = {\n"; my $prev = ""; my $n = 0; my ($gl, $gm) = ($l, $m); my $gi = 0;
for my $cp (0 .. 0x10FFFF) { $gi++ while $gi + 1 < @$gl && $gl->[$gi + 1] <= $cp; my $k = $gm->[$gi] . "," . flags($cp); if ($k ne $prev) { my ($g, $f) = split /,/, $k; printf "{0x%X,\"%s\",%d},%s", $cp, $g, $f, ++$n % 8 ? "" : "\n"; $prev = $k; } }
print "\n};\n";
for my $p (["upper", "Simple_Uppercase_Mapping"], ["lower", "Simple_Lowercase_Mapping"], ["title", "Simple_Titlecase_Mapping"]) {
	my ($il, $im, $fmt, $def) = prop_invmap($p->[1]); print "static const uint32_t uni_$p->[0]\[\]\[2\] = {\n"; my $k = 0;
	for my $i (0 .. $#$il) { next if $im->[$i] eq $def || !$im->[$i]; my $e = $i < $#$il ? $il->[$i + 1] : 0x110000; for my $c ($il->[$i] .. $e - 1) { my $t = $im->[$i] + $c - $il->[$i]; next if $t == $c; printf "{0x%X,0x%X},%s", $c, $t, ++$k % 10 ? "" : "\n"; } }
	print "\n};\n"; }
