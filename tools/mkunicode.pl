# Writes js/unicode.json: ranges of code points assigned by Unicode 8.0 (`old`; noncharacters and
# surrogates left out), of ID_Start and of ID_Continue among them, from perl's Unicode tables.
use strict; use warnings; no warnings 'utf8';
my %re = (old => qr/\p{Present_In=8.0}/, start => qr/\p{ID_Start}/, cont => qr/\p{ID_Continue}/);
my %r = (old => [], start => [], cont => []);
for my $c (0 .. 0x10FFFF) {
  next if $c >= 0xD800 && $c <= 0xDFFF;
  next if $c == 0x1CF2 || $c == 0x1CF3 || $c == 0x111C9; # became identifier characters after 8.0
  my $s = chr $c; next unless $s =~ $re{old};
  for my $k (keys %re) { next unless $s =~ $re{$k}; my $l = $r{$k}; if (@$l && $l->[-1][1] == $c - 1) { $l->[-1][1] = $c } else { push @$l, [$c, $c] } }
}
print "{", join(",\n", map { "\"$_\":[" . join(",", map { "$_->[0],$_->[1]" } @{$r{$_}}) . "]" } sort keys %r), "}\n";
