package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"net"
	"net/http"
)

// upgrade answers a websocket handshake and leaves the connection alone.
func upgrade(c net.Conn) bool {
	r, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return false
	}
	s := sha1.Sum([]byte(r.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	_, err = fmt.Fprintf(c, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n", base64.StdEncoding.EncodeToString(s[:]))
	return err == nil
}
