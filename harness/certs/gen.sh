#!/bin/bash
# Regenerates the test certificates (committed; run only to replace them).
set -e
cd "$(dirname "$0")"
DAYS=36500
ca() { openssl genpkey -algorithm ed25519 -out $1.key 2>/dev/null
  openssl req -x509 -new -key $1.key -subj "/CN=$2" -days $DAYS -out $1.pem -addext basicConstraints=critical,CA:true -addext keyUsage=critical,keyCertSign,cRLSign; }
ca ca "vh test root"; ca ca2 "vh second root"; ca rogue "vh test root"
cert() { # name subject-alt issuer [start end]
  local n=$1 san=$2 ca=$3 from=${4:-20000101000000Z} to=${5:-21991231000000Z}
  openssl req -new -key leaf.key -subj "/CN=${CN:-$n}" -out $n.csr
  printf "subjectAltName=%s\nbasicConstraints=CA:false\nkeyUsage=digitalSignature\nextendedKeyUsage=serverAuth\n" "$san" > $n.ext
  mkdir db; : > db/index.txt
  printf "[ca]\ndefault_ca=d\n[d]\ndir=db\ndatabase=db/index.txt\nnew_certs_dir=db\nrand_serial=yes\ndefault_md=default\npolicy=p\nunique_subject=no\n[p]\ncommonName=supplied\n" > db/cnf
  openssl ca -batch -config db/cnf -cert $ca.pem -keyfile $ca.key -in $n.csr -out $n.crt -notext -startdate $from -enddate $to -extfile $n.ext 2>/dev/null
  openssl x509 -in $n.crt -outform DER -out $n.der; openssl x509 -in $n.crt -noout -dates
  rm -f db/*; rmdir db; }
openssl genpkey -algorithm ed25519 -out leaf.key 2>/dev/null
openssl pkcs8 -topk8 -nocrypt -in leaf.key -outform DER -out leaf.pk8
CN=irc.chat.twitch.tv cert good DNS:irc.chat.twitch.tv ca
cert good2 DNS:other.example,DNS:irc.chat.twitch.tv ca2
cert wild 'DNS:*.chat.twitch.tv' ca 
CN=irc.chat.twitch.tv cert cnonly DNS:irc.twitch.tv ca
cert other DNS:twitch.tv ca
cert evil DNS:irc.chat.twitch.tv.evil.example ca
cert widewild 'DNS:*.twitch.tv' ca
cert rogueleaf DNS:irc.chat.twitch.tv rogue
cert expired DNS:irc.chat.twitch.tv ca 20000101000000Z 20010101000000Z
cert future DNS:irc.chat.twitch.tv ca 21500101000000Z 21600101000000Z
cat ca.pem ca2.pem > roots.pem
rm -f *.csr *.ext *.crt *.key ca.pem ca2.pem rogue.pem
