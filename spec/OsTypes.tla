------------------------------- MODULE OsTypes -------------------------------
(* The media types registered for file name extensions, as texts.           *)
Types == <<
    \* aac audio/aac
    <<<<97, 97, 99>>, <<97, 117, 100, 105, 111, 47, 97, 97, 99>>>>,
    \* abw application/x-abiword
    <<<<97, 98, 119>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 97, 98, 105, 119, 111, 114, 100>>>>,
    \* arc application/x-freearc
    <<<<97, 114, 99>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 102, 114, 101, 101, 97, 114, 99>>>>,
    \* avif image/avif
    <<<<97, 118, 105, 102>>, <<105, 109, 97, 103, 101, 47, 97, 118, 105, 102>>>>,
    \* avi video/x-msvideo
    <<<<97, 118, 105>>, <<118, 105, 100, 101, 111, 47, 120, 45, 109, 115, 118, 105, 100, 101, 111>>>>,
    \* azw application/vnd.amazon.ebook
    <<<<97, 122, 119>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 97, 109, 97, 122, 111, 110, 46, 101, 98, 111, 111, 107>>>>,
    \* bin application/octet-stream
    <<<<98, 105, 110>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 111, 99, 116, 101, 116, 45, 115, 116, 114, 101, 97, 109>>>>,
    \* bmp image/bmp
    <<<<98, 109, 112>>, <<105, 109, 97, 103, 101, 47, 98, 109, 112>>>>,
    \* bz application/x-bzip
    <<<<98, 122>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 98, 122, 105, 112>>>>,
    \* bz2 application/x-bzip2
    <<<<98, 122, 50>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 98, 122, 105, 112, 50>>>>,
    \* cda application/x-cdf
    <<<<99, 100, 97>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 99, 100, 102>>>>,
    \* csh application/x-csh
    <<<<99, 115, 104>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 99, 115, 104>>>>,
    \* css text/css
    <<<<99, 115, 115>>, <<116, 101, 120, 116, 47, 99, 115, 115>>>>,
    \* csv text/csv
    <<<<99, 115, 118>>, <<116, 101, 120, 116, 47, 99, 115, 118>>>>,
    \* doc application/msword
    <<<<100, 111, 99>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 109, 115, 119, 111, 114, 100>>>>,
    \* docx application/vnd.openxmlformats-officedocument.wordprocessingml.document
    <<<<100, 111, 99, 120>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 111, 112, 101, 110, 120, 109, 108, 102, 111, 114, 109, 97, 116, 115, 45, 111, 102, 102, 105, 99, 101, 100, 111, 99, 117, 109, 101, 110, 116, 46, 119, 111, 114, 100, 112, 114, 111, 99, 101, 115, 115, 105, 110, 103, 109, 108, 46, 100, 111, 99, 117, 109, 101, 110, 116>>>>,
    \* eot application/vnd.ms-fontobject
    <<<<101, 111, 116>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 109, 115, 45, 102, 111, 110, 116, 111, 98, 106, 101, 99, 116>>>>,
    \* epub application/epub+zip
    <<<<101, 112, 117, 98>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 101, 112, 117, 98, 43, 122, 105, 112>>>>,
    \* gz application/gzip
    <<<<103, 122>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 103, 122, 105, 112>>>>,
    \* gif image/gif
    <<<<103, 105, 102>>, <<105, 109, 97, 103, 101, 47, 103, 105, 102>>>>,
    \* htm text/html
    <<<<104, 116, 109>>, <<116, 101, 120, 116, 47, 104, 116, 109, 108>>>>,
    \* html text/html
    <<<<104, 116, 109, 108>>, <<116, 101, 120, 116, 47, 104, 116, 109, 108>>>>,
    \* ico image/vnd.microsoft.icon
    <<<<105, 99, 111>>, <<105, 109, 97, 103, 101, 47, 118, 110, 100, 46, 109, 105, 99, 114, 111, 115, 111, 102, 116, 46, 105, 99, 111, 110>>>>,
    \* ics text/calendar
    <<<<105, 99, 115>>, <<116, 101, 120, 116, 47, 99, 97, 108, 101, 110, 100, 97, 114>>>>,
    \* jar application/java-archive
    <<<<106, 97, 114>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 106, 97, 118, 97, 45, 97, 114, 99, 104, 105, 118, 101>>>>,
    \* jpeg image/jpeg
    <<<<106, 112, 101, 103>>, <<105, 109, 97, 103, 101, 47, 106, 112, 101, 103>>>>,
    \* jpg image/jpeg
    <<<<106, 112, 103>>, <<105, 109, 97, 103, 101, 47, 106, 112, 101, 103>>>>,
    \* js text/javascript
    <<<<106, 115>>, <<116, 101, 120, 116, 47, 106, 97, 118, 97, 115, 99, 114, 105, 112, 116>>>>,
    \* json application/json
    <<<<106, 115, 111, 110>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 106, 115, 111, 110>>>>,
    \* jsonld application/ld+json
    <<<<106, 115, 111, 110, 108, 100>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 108, 100, 43, 106, 115, 111, 110>>>>,
    \* mid audio/midi
    <<<<109, 105, 100>>, <<97, 117, 100, 105, 111, 47, 109, 105, 100, 105>>>>,
    \* midi audio/midi
    <<<<109, 105, 100, 105>>, <<97, 117, 100, 105, 111, 47, 109, 105, 100, 105>>>>,
    \* mjs text/javascript
    <<<<109, 106, 115>>, <<116, 101, 120, 116, 47, 106, 97, 118, 97, 115, 99, 114, 105, 112, 116>>>>,
    \* mp3 audio/mpeg
    <<<<109, 112, 51>>, <<97, 117, 100, 105, 111, 47, 109, 112, 101, 103>>>>,
    \* mp4 video/mp4
    <<<<109, 112, 52>>, <<118, 105, 100, 101, 111, 47, 109, 112, 52>>>>,
    \* mpeg video/mpeg
    <<<<109, 112, 101, 103>>, <<118, 105, 100, 101, 111, 47, 109, 112, 101, 103>>>>,
    \* mpkg application/vnd.apple.installer+xml
    <<<<109, 112, 107, 103>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 97, 112, 112, 108, 101, 46, 105, 110, 115, 116, 97, 108, 108, 101, 114, 43, 120, 109, 108>>>>,
    \* odp application/vnd.oasis.opendocument.presentation
    <<<<111, 100, 112>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 111, 97, 115, 105, 115, 46, 111, 112, 101, 110, 100, 111, 99, 117, 109, 101, 110, 116, 46, 112, 114, 101, 115, 101, 110, 116, 97, 116, 105, 111, 110>>>>,
    \* ods application/vnd.oasis.opendocument.spreadsheet
    <<<<111, 100, 115>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 111, 97, 115, 105, 115, 46, 111, 112, 101, 110, 100, 111, 99, 117, 109, 101, 110, 116, 46, 115, 112, 114, 101, 97, 100, 115, 104, 101, 101, 116>>>>,
    \* odt application/vnd.oasis.opendocument.text
    <<<<111, 100, 116>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 111, 97, 115, 105, 115, 46, 111, 112, 101, 110, 100, 111, 99, 117, 109, 101, 110, 116, 46, 116, 101, 120, 116>>>>,
    \* oga audio/ogg
    <<<<111, 103, 97>>, <<97, 117, 100, 105, 111, 47, 111, 103, 103>>>>,
    \* ogv video/ogg
    <<<<111, 103, 118>>, <<118, 105, 100, 101, 111, 47, 111, 103, 103>>>>,
    \* ogx application/ogg
    <<<<111, 103, 120>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 111, 103, 103>>>>,
    \* opus audio/opus
    <<<<111, 112, 117, 115>>, <<97, 117, 100, 105, 111, 47, 111, 112, 117, 115>>>>,
    \* otf font/otf
    <<<<111, 116, 102>>, <<102, 111, 110, 116, 47, 111, 116, 102>>>>,
    \* png image/png
    <<<<112, 110, 103>>, <<105, 109, 97, 103, 101, 47, 112, 110, 103>>>>,
    \* pdf application/pdf
    <<<<112, 100, 102>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 112, 100, 102>>>>,
    \* php application/x-httpd-php
    <<<<112, 104, 112>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 104, 116, 116, 112, 100, 45, 112, 104, 112>>>>,
    \* ppt application/vnd.ms-powerpoint
    <<<<112, 112, 116>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 109, 115, 45, 112, 111, 119, 101, 114, 112, 111, 105, 110, 116>>>>,
    \* rar application/vnd.rar
    <<<<114, 97, 114>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 114, 97, 114>>>>,
    \* rtf application/rtf
    <<<<114, 116, 102>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 114, 116, 102>>>>,
    \* svg image/svg+xml
    <<<<115, 118, 103>>, <<105, 109, 97, 103, 101, 47, 115, 118, 103, 43, 120, 109, 108>>>>,
    \* tar application/x-tar
    <<<<116, 97, 114>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 116, 97, 114>>>>,
    \* tif image/tiff
    <<<<116, 105, 102>>, <<105, 109, 97, 103, 101, 47, 116, 105, 102, 102>>>>,
    \* tiff image/tiff
    <<<<116, 105, 102, 102>>, <<105, 109, 97, 103, 101, 47, 116, 105, 102, 102>>>>,
    \* ts video/mp2t
    <<<<116, 115>>, <<118, 105, 100, 101, 111, 47, 109, 112, 50, 116>>>>,
    \* ttf font/ttf
    <<<<116, 116, 102>>, <<102, 111, 110, 116, 47, 116, 116, 102>>>>,
    \* txt text/plain
    <<<<116, 120, 116>>, <<116, 101, 120, 116, 47, 112, 108, 97, 105, 110>>>>,
    \* vsd application/vnd.visio
    <<<<118, 115, 100>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 118, 105, 115, 105, 111>>>>,
    \* wav audio/wav
    <<<<119, 97, 118>>, <<97, 117, 100, 105, 111, 47, 119, 97, 118>>>>,
    \* weba audio/webm
    <<<<119, 101, 98, 97>>, <<97, 117, 100, 105, 111, 47, 119, 101, 98, 109>>>>,
    \* webm video/webm
    <<<<119, 101, 98, 109>>, <<118, 105, 100, 101, 111, 47, 119, 101, 98, 109>>>>,
    \* webp image/webp
    <<<<119, 101, 98, 112>>, <<105, 109, 97, 103, 101, 47, 119, 101, 98, 112>>>>,
    \* woff2 font/woff2
    <<<<119, 111, 102, 102, 50>>, <<102, 111, 110, 116, 47, 119, 111, 102, 102, 50>>>>,
    \* xhtml application/xhtml+xml
    <<<<120, 104, 116, 109, 108>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 104, 116, 109, 108, 43, 120, 109, 108>>>>,
    \* xls application/vnd.ms-excel
    <<<<120, 108, 115>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 109, 115, 45, 101, 120, 99, 101, 108>>>>,
    \* xlsx application/vnd.openxmlformats-officedocument.spreadsheetml.sheet
    <<<<120, 108, 115, 120>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 111, 112, 101, 110, 120, 109, 108, 102, 111, 114, 109, 97, 116, 115, 45, 111, 102, 102, 105, 99, 101, 100, 111, 99, 117, 109, 101, 110, 116, 46, 115, 112, 114, 101, 97, 100, 115, 104, 101, 101, 116, 109, 108, 46, 115, 104, 101, 101, 116>>>>,
    \* xml application/xml
    <<<<120, 109, 108>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 109, 108>>>>,
    \* xul application/vnd.mozilla.xul+xml
    <<<<120, 117, 108>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 118, 110, 100, 46, 109, 111, 122, 105, 108, 108, 97, 46, 120, 117, 108, 43, 120, 109, 108>>>>,
    \* zip application/zip
    <<<<122, 105, 112>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 122, 105, 112>>>>,
    \* 3gp video/3gpp
    <<<<51, 103, 112>>, <<118, 105, 100, 101, 111, 47, 51, 103, 112, 112>>>>,
    \* 3g2 video/3gpp2
    <<<<51, 103, 50>>, <<118, 105, 100, 101, 111, 47, 51, 103, 112, 112, 50>>>>,
    \* 7z application/x-7z-compressed
    <<<<55, 122>>, <<97, 112, 112, 108, 105, 99, 97, 116, 105, 111, 110, 47, 120, 45, 55, 122, 45, 99, 111, 109, 112, 114, 101, 115, 115, 101, 100>>>>
>>
=============================================================================
