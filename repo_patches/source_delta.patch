From ba1ddc13fab2d80cbcc791484345246e5746f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:00 +0000
Subject: [PATCH 01/44] fix: stop reading a text file that ends early, fails to
 read or is shorter than a BOM

The reader returned zero characters without advancing when the underlying stream failed, so
readLine never ended. Files of one or two bytes left the stream in a failed state after BOM
detection, with the same result.
---
 Parser/Parser.cpp      |  6 ++++++
 Util/EncodingTable.cpp |  2 +-
 Util/FileClasses.cpp   | 26 +++++++++++++++++++++++++-
 Util/FileClasses.h     |  2 ++
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/Parser/Parser.cpp b/Parser/Parser.cpp
index 9f37dc2..0b42a3a 100644
--- a/Parser/Parser.cpp
+++ b/Parser/Parser.cpp
@@ -179,6 +179,12 @@ std::unique_ptr<CAssemblerCommand> Parser::parseFile(TextFile& file, bool virtua
 	if (!tokenizer.init(&file))
 		return nullptr;
 
+	if (file.hasReadError())
+	{
+		Logger::printError(Logger::Error, "Could not read file \"%s\"", file.getFileName().u8string());
+		return std::make_unique<DummyCommand>();
+	}
+
 	std::unique_ptr<CAssemblerCommand> result = parse(&tokenizer,virtualFile,file.getFileName());
 
 	if (!file.isFromMemory())
diff --git a/Util/EncodingTable.cpp b/Util/EncodingTable.cpp
index 373b35b..4889af9 100644
--- a/Util/EncodingTable.cpp
+++ b/Util/EncodingTable.cpp
@@ -163,7 +163,7 @@ bool EncodingTable::load(const fs::path& fileName, TextFile::Encoding encoding)
 		}
 	}
 
-	return true;
+	return !input.hasReadError();
 }
 
 void EncodingTable::addEntry(unsigned char* hex, size_t hexLength, const std::string& value)
diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 7c2c940..098e43e 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -650,6 +650,7 @@ TextFile::TextFile()
 {
 	recursion = false;
 	errorRetrieved = false;
+	readError = false;
 	fromMemory = false;
 	bufPos = 0;
 	lineCount = 0;
@@ -686,6 +687,7 @@ bool TextFile::open(Mode mode, Encoding defaultEncoding)
 		close();
 
 	fromMemory = false;
+	readError = false;
 	guessedEncoding = false;
 	encoding = defaultEncoding;
 	this->mode = mode;
@@ -722,9 +724,23 @@ bool TextFile::open(Mode mode, Encoding defaultEncoding)
 
 	if (mode == Read)
 	{
-		size_ = long(fs::file_size(fileName));
+		std::error_code errorCode;
+		size_ = long(fs::file_size(fileName, errorCode));
+		if (errorCode)
+		{
+			stream.close();
+			return false;
+		}
 
 		stream.read(reinterpret_cast<char *>(numBuffer), 3);
+		if (stream.bad() || stream.gcount() < std::min(size_, 3L))
+		{
+			stream.close();
+			return false;
+		}
+
+		// the file may be shorter than the longest byte order mark
+		stream.clear();
 		switch (numBuffer[0] | (numBuffer[1] << 8))
 		{
 		case 0xFFFE:
@@ -796,6 +812,14 @@ void TextFile::bufFillRead()
 	stream.read(&buf[0], TEXTFILE_BUF_MAX_SIZE);
 	buf.resize(stream.gcount());
 	bufPos = 0;
+
+	// if the end of the file hasn't been reached yet, there should have been more
+	// data. don't try to read any further
+	if (buf.empty() && (long) contentPos < size_)
+	{
+		readError = true;
+		size_ = (long) contentPos;
+	}
 }
 
 char32_t TextFile::readCharacter()
diff --git a/Util/FileClasses.h b/Util/FileClasses.h
index b76f73c..67cf2ab 100644
--- a/Util/FileClasses.h
+++ b/Util/FileClasses.h
@@ -46,6 +46,7 @@ public:
 		write(message);
 	}
 
+	bool hasReadError() { return readError; };
 	bool hasError() { return errorText.size() != 0 && !errorRetrieved; };
 	const std::string& getErrorText() { errorRetrieved = true; return errorText; };
 private:
@@ -65,6 +66,7 @@ private:
 	long size_;
 	std::string errorText;
 	bool errorRetrieved;
+	bool readError;
 	bool fromMemory;
 	std::string content;
 	size_t contentPos;
-- 
2.43.0


From a218a253ebbd8f1c32a8992dcab179b9401e60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:23 +0000
Subject: [PATCH 02/44] fix: give every thread its own source position

Encoding, listing and symbol output run at the same time, but shared one position, so diagnostics
and listing lines could carry the position of another thread's command.
---
 Commands/CommandSequence.cpp | 2 ++
 Core/Assembler.cpp           | 4 ++++
 Core/Common.cpp              | 1 +
 Core/Common.h                | 6 +++---
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/Commands/CommandSequence.cpp b/Commands/CommandSequence.cpp
index bc5b0d2..146b97d 100644
--- a/Commands/CommandSequence.cpp
+++ b/Commands/CommandSequence.cpp
@@ -24,6 +24,7 @@ void CommandSequence::Encode() const
 {
 	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
 	{
+		cmd->applyFileInfo();
 		cmd->Encode();
 	}
 }
@@ -41,6 +42,7 @@ void CommandSequence::writeSymData(SymbolData& symData) const
 {
 	for (const std::unique_ptr<CAssemblerCommand>& cmd: commands)
 	{
+		cmd->applyFileInfo();
 		cmd->writeSymData(symData);
 	}
 }
diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index b1d006c..b84f391 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -77,8 +77,11 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 	if (Global.memoryMode)
 		g_fileManager->openFile(Global.memoryFile,false);
 
+	const tFileInfo fileInfo = Global.FileInfo;
+
 	auto writeTempData = [&]()
 	{
+		Global.FileInfo = fileInfo;
 		tempData.start();
 		if (tempData.isOpen())
 			content->writeTempData(tempData);
@@ -87,6 +90,7 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 
 	auto writeSymData = [&]()
 	{
+		Global.FileInfo = fileInfo;
 		content->writeSymData(symData);
 		symData.write();
 	};
diff --git a/Core/Common.cpp b/Core/Common.cpp
index 05efb9b..f1ec7ab 100644
--- a/Core/Common.cpp
+++ b/Core/Common.cpp
@@ -11,6 +11,7 @@ FileManager fileManager;
 FileManager* g_fileManager = &fileManager;
 
 tGlobal Global;
+thread_local tFileInfo tGlobal::FileInfo;
 
 void FileList::add(const fs::path &path)
 {
diff --git a/Core/Common.h b/Core/Common.h
index 4913eb8..ce5f00b 100644
--- a/Core/Common.h
+++ b/Core/Common.h
@@ -50,9 +50,9 @@ typedef struct {
 	int TotalLineCount;
 } tFileInfo;
 
-typedef struct {
+struct tGlobal {
 	FileList fileList;
-	tFileInfo FileInfo;
+	static thread_local tFileInfo FileInfo; // every thread is at its own position in the source
 	SymbolTable symbolTable;
 	EncodingTable Table;
 	int Section;
@@ -61,7 +61,7 @@ typedef struct {
 	bool memoryMode;
 	std::shared_ptr<AssemblerFile> memoryFile;
 	bool multiThreading;
-} tGlobal;
+};
 
 extern tGlobal Global;
 
-- 
2.43.0


From 5c168567d4ae7f92ae31642a2be59e135d880b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:25 +0000
Subject: [PATCH 03/44] fix: serialise diagnostics reported by concurrent
 threads

---
 Core/Misc.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Core/Misc.cpp b/Core/Misc.cpp
index 4392316..c41b9b4 100644
--- a/Core/Misc.cpp
+++ b/Core/Misc.cpp
@@ -6,6 +6,10 @@
 #include "Util/Util.h"
 
 #include <iostream>
+#include <mutex>
+
+// errors can be reported by several threads at once
+static std::mutex loggerMutex;
 
 std::vector<Logger::QueueEntry> Logger::queue;
 std::vector<std::string> Logger::errors;
@@ -91,6 +95,8 @@ void Logger::printError(ErrorType type, const std::string_view text)
 	if (suppressLevel)
 		return;
 
+	std::lock_guard<std::mutex> lock(loggerMutex);
+
 	std::string errorText = formatError(type,text.data());
 	errors.push_back(errorText);
 
@@ -105,6 +111,8 @@ void Logger::queueError(ErrorType type, const std::string_view text)
 	if (suppressLevel)
 		return;
 
+	std::lock_guard<std::mutex> lock(loggerMutex);
+
 	QueueEntry entry;
 	entry.type = type;
 	entry.text = formatError(type,text.data());
-- 
2.43.0


From 35557fe1bdefa79211279380614217e6dc76a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:28 +0000
Subject: [PATCH 04/44] fix: don't modify the area table while looking up a sub
 area's usage

The lookup happens in the encode, listing and symbol threads at the same time.
---
 Core/Allocations.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 920ef08..7f21b93 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -120,10 +120,12 @@ int64_t Allocations::getSubAreaUsage(int64_t fileID, int64_t position)
 		maxExtent = std::max(extent, maxExtent);
 	}
 
-	// Now subtract out the original usage.
-	if (maxExtent <= allocations[key].usage)
+	// Now subtract out the original usage. This is called by several threads, so don't insert anything.
+	auto it = allocations.find(key);
+	int64_t usage = it != allocations.end() ? it->second.usage : 0;
+	if (maxExtent <= usage)
 		return 0;
-	return maxExtent - allocations[key].usage;
+	return maxExtent - usage;
 }
 
 void Allocations::validateOverlap()
-- 
2.43.0


From f6fdec87e8c97c9597ae7bd57affa5c098bb79d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:50 +0000
Subject: [PATCH 05/44] fix: list .loadelf at the address computed during
 validation

The listing thread asked the file manager for the address the encoding thread happened to be at.
---
 Archs/MIPS/MipsElfFile.cpp | 5 +++--
 Archs/MIPS/MipsElfFile.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index 27013bc..764e808 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -294,6 +294,7 @@ DirectiveLoadMipsElf::DirectiveLoadMipsElf(const fs::path& inputName, const fs::
 
 bool DirectiveLoadMipsElf::Validate(const ValidateState &state)
 {
+	virtualAddress = g_fileManager->getVirtualAddress();
 	Architecture::current().NextSection();
 	g_fileManager->openFile(file,true);
 	return false;
@@ -308,9 +309,9 @@ void DirectiveLoadMipsElf::writeTempData(TempData& tempData) const
 {
 	if (outputName.empty())
 	{
-		tempData.writeLine(g_fileManager->getVirtualAddress(),tfm::format(".loadelf \"%s\"",inputName.u8string()));
+		tempData.writeLine(virtualAddress,tfm::format(".loadelf \"%s\"",inputName.u8string()));
 	} else {
-		tempData.writeLine(g_fileManager->getVirtualAddress(),tfm::format(".loadelf \"%s\",\"%s\"",
+		tempData.writeLine(virtualAddress,tfm::format(".loadelf \"%s\",\"%s\"",
 			inputName.u8string(),outputName.u8string()));
 	}
 }
diff --git a/Archs/MIPS/MipsElfFile.h b/Archs/MIPS/MipsElfFile.h
index f4291ff..aa179bc 100644
--- a/Archs/MIPS/MipsElfFile.h
+++ b/Archs/MIPS/MipsElfFile.h
@@ -51,4 +51,5 @@ private:
 	std::shared_ptr<MipsElfFile> file;
 	fs::path inputName;
 	fs::path outputName;
+	int64_t virtualAddress = -1;
 };
-- 
2.43.0


From 4a890a6943eb22ac282856a0a0536efa97ae1f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:02 +0000
Subject: [PATCH 06/44] fix: report failed writes to output files

The result of writing and closing a file was ignored by all callers, so a full disk or an I/O error
produced a truncated output and success.
---
 Core/FileManager.cpp | 22 +++++++++++++++++++++-
 Core/FileManager.h   |  3 ++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/Core/FileManager.cpp b/Core/FileManager.cpp
index 287f1fc..569402b 100644
--- a/Core/FileManager.cpp
+++ b/Core/FileManager.cpp
@@ -156,6 +156,16 @@ bool GenericAssemblerFile::open(bool onlyCheck)
 	return false;
 }
 
+void GenericAssemblerFile::close()
+{
+	if (!stream.is_open())
+		return;
+
+	stream.close();
+	if (stream.fail())
+		Logger::printError(Logger::Error, "Could not write all data to file %s",fileName.u8string());
+}
+
 bool GenericAssemblerFile::write(void* data, size_t length)
 {
 	if (!isOpen())
@@ -255,6 +265,7 @@ bool FileManager::openFile(std::shared_ptr<AssemblerFile> file, bool onlyCheck)
 	}
 
 	activeFile = std::move(file);
+	writeErrorReported = false;
 	return activeFile->open(onlyCheck);
 }
 
@@ -286,7 +297,16 @@ bool FileManager::write(void* data, size_t length)
 		return false;
 	}
 
-	return activeFile->write(data,length);
+	if (!activeFile->write(data,length))
+	{
+		// once is enough, there may be a lot of data left to write
+		if (!writeErrorReported)
+			Logger::printError(Logger::Error, "Could not write to file %s",activeFile->getFileName().u8string());
+		writeErrorReported = true;
+		return false;
+	}
+
+	return true;
 }
 
 bool FileManager::writeU8(uint8_t data)
diff --git a/Core/FileManager.h b/Core/FileManager.h
index 255e7b5..886fd82 100644
--- a/Core/FileManager.h
+++ b/Core/FileManager.h
@@ -38,7 +38,7 @@ public:
 	GenericAssemblerFile(const fs::path& fileName, const fs::path& originalFileName, int64_t headerSize);
 
 	virtual bool open(bool onlyCheck);
-	virtual void close() { if (stream.is_open()) stream.close(); };
+	virtual void close();
 	virtual bool isOpen() { return stream.is_open(); };
 	virtual bool write(void* data, size_t length);
 	virtual int64_t getVirtualAddress() { return virtualAddress; };
@@ -95,6 +95,7 @@ private:
 	bool checkActiveFile();
 	std::vector<std::shared_ptr<AssemblerFile>> files;
 	std::shared_ptr<AssemblerFile> activeFile;
+	bool writeErrorReported = false;
 	Endianness endianness;
 	Endianness ownEndianness;
 };
-- 
2.43.0


From 944ce4c7d3fda99bd3ebd17be2f526d9e23e9744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:19 +0000
Subject: [PATCH 07/44] fix: report failed writes to the temp and sym files

---
 Core/Misc.cpp        | 4 ++--
 Core/SymbolData.cpp  | 3 ++-
 Util/FileClasses.cpp | 5 ++++-
 Util/FileClasses.h   | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Core/Misc.cpp b/Core/Misc.cpp
index c41b9b4..4533f3d 100644
--- a/Core/Misc.cpp
+++ b/Core/Misc.cpp
@@ -161,8 +161,8 @@ void TempData::start()
 
 void TempData::end()
 {
-	if (file.isOpen())
-		file.close();
+	if (file.isOpen() && !file.close())
+		Logger::printError(Logger::Error, "Could not write temp file %s.",file.getFileName().u8string());
 }
 
 void TempData::writeLine(int64_t memoryAddress, const std::string& text)
diff --git a/Core/SymbolData.cpp b/Core/SymbolData.cpp
index ce03c99..84fbbe3 100644
--- a/Core/SymbolData.cpp
+++ b/Core/SymbolData.cpp
@@ -119,7 +119,8 @@ void SymbolData::writeNocashSym()
 	}
 
 	file.write("\x1A");
-	file.close();
+	if (!file.close())
+		Logger::printError(Logger::Error, "Could not write sym file %s.",file.getFileName().u8string());
 }
 
 void SymbolData::write()
diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 098e43e..c340b89 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -781,14 +781,17 @@ bool TextFile::open(Mode mode, Encoding defaultEncoding)
 	return true;
 }
 
-void TextFile::close()
+bool TextFile::close()
 {
+	bool success = true;
 	if (isOpen() && !fromMemory)
 	{
 		bufDrainWrite();
 		stream.close();
+		success = mode == Read || !stream.fail();
 	}
 	bufPos = 0;
+	return success;
 }
 
 long TextFile::tell()
diff --git a/Util/FileClasses.h b/Util/FileClasses.h
index 67cf2ab..89e9872 100644
--- a/Util/FileClasses.h
+++ b/Util/FileClasses.h
@@ -22,7 +22,7 @@ public:
 	bool isOpen() { return fromMemory || stream.is_open(); };
 	bool atEnd() { return isOpen() && mode == Read && tell() >= size_; };
 	long size() { return size_; };
-	void close();
+	bool close();
 
 	bool hasGuessedEncoding() { return guessedEncoding; };
 	bool isFromMemory() { return fromMemory; }
-- 
2.43.0


From b328e142b48d27f42c8022294551fee14175ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:44 +0000
Subject: [PATCH 08/44] fix: report an ELF file that could not be saved

---
 Archs/MIPS/MipsElfFile.cpp | 3 ++-
 Core/ELF/ElfFile.cpp       | 4 ++--
 Core/ELF/ElfFile.h         | 2 +-
 Util/ByteArray.cpp         | 1 +
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index 764e808..5177291 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -256,7 +256,8 @@ bool MipsElfFile::setSection(const std::string& name)
 
 void MipsElfFile::save()
 {
-	elf.save(outputFileName);
+	if (!elf.save(outputFileName))
+		Logger::printError(Logger::Error, "Could not write file %s",outputFileName.u8string());
 }
 
 //
diff --git a/Core/ELF/ElfFile.cpp b/Core/ELF/ElfFile.cpp
index 85518b2..beb7503 100644
--- a/Core/ELF/ElfFile.cpp
+++ b/Core/ELF/ElfFile.cpp
@@ -442,7 +442,7 @@ bool ElfFile::load(ByteArray& data, bool sort)
 	return true;
 }
 
-void ElfFile::save(const fs::path& fileName)
+bool ElfFile::save(const fs::path& fileName)
 {
 	fileData.clear();
 
@@ -493,7 +493,7 @@ void ElfFile::save(const fs::path& fileName)
 		sections[i]->writeHeader(fileData, pos, endianness);
 	}
 
-	fileData.toFile(fileName);
+	return fileData.toFile(fileName);
 }
 
 int ElfFile::getSymbolCount()
diff --git a/Core/ELF/ElfFile.h b/Core/ELF/ElfFile.h
index 5d37e93..951ff42 100644
--- a/Core/ELF/ElfFile.h
+++ b/Core/ELF/ElfFile.h
@@ -16,7 +16,7 @@ public:
 
 	bool load(const fs::path&fileName, bool sort);
 	bool load(ByteArray& data, bool sort);
-	void save(const fs::path& fileName);
+	bool save(const fs::path& fileName);
 
 	Elf32_Half getType() { return fileHeader.e_type; };
 	Elf32_Half getMachine() { return fileHeader.e_machine; };
diff --git a/Util/ByteArray.cpp b/Util/ByteArray.cpp
index eac9db1..f7bfa46 100644
--- a/Util/ByteArray.cpp
+++ b/Util/ByteArray.cpp
@@ -169,5 +169,6 @@ bool ByteArray::toFile(const fs::path& fileName)
 		return {};
 
 	stream.write(reinterpret_cast<const char *>(data_), size_);
+	stream.close();
 	return !stream.fail();
 }
-- 
2.43.0


From 197e4b1958313f0c186a571c11b5867e2716f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:47 +0000
Subject: [PATCH 09/44] fix: fail if the host's memory file cannot be opened

---
 Core/Assembler.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index b84f391..0d89d69 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -45,8 +45,8 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 			printf("Validate %d...\n",validation.passes);
 #endif
 
-		if (Global.memoryMode)
-			g_fileManager->openFile(Global.memoryFile,true);
+		if (Global.memoryMode && !g_fileManager->openFile(Global.memoryFile,true))
+			Logger::queueError(Logger::FatalError, "Could not open memory file");
 
 		Revalidate = content->Validate(validation);
 
@@ -74,8 +74,11 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 #endif
 
 	// and finally encode
-	if (Global.memoryMode)
-		g_fileManager->openFile(Global.memoryFile,false);
+	if (Global.memoryMode && !g_fileManager->openFile(Global.memoryFile,false))
+	{
+		Logger::printError(Logger::FatalError, "Could not open memory file");
+		return false;
+	}
 
 	const tFileInfo fileInfo = Global.FileInfo;
 
-- 
2.43.0


From 682ead171aff0fa5da1a9f3118bd466a9d500bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:40 +0000
Subject: [PATCH 10/44] fix: don't use the contents of a file that could not be
 read completely

---
 Util/ByteArray.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Util/ByteArray.cpp b/Util/ByteArray.cpp
index f7bfa46..829a1bd 100644
--- a/Util/ByteArray.cpp
+++ b/Util/ByteArray.cpp
@@ -144,8 +144,9 @@ ByteArray ByteArray::fromFile(const fs::path& fileName, long start, size_t size)
 	if (!stream.is_open())
 		return {};
 
-	auto fileSize = fs::file_size(fileName);
-	if (start >= fileSize)
+	std::error_code error;
+	auto fileSize = fs::file_size(fileName, error);
+	if (error || start >= fileSize)
 		return {};
 
 	if (size == 0 || start+(long)size > fileSize)
@@ -157,8 +158,10 @@ ByteArray ByteArray::fromFile(const fs::path& fileName, long start, size_t size)
 	ret.grow(size);
 
 	stream.read(reinterpret_cast<char *>(ret.data()), size);
-	ret.size_ = stream.gcount();
+	if ((size_t) stream.gcount() != size)
+		return {};
 
+	ret.size_ = size;
 	return ret;
 }
 
-- 
2.43.0


From 704b81bf2e5495afe585bf0541391d3424f8972d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:40 +0000
Subject: [PATCH 11/44] fix: report failing file system queries instead of
 letting exceptions escape

---
 Commands/CDirectiveData.cpp   |  3 ++-
 Commands/CDirectiveFile.cpp   | 13 +++++++++----
 Core/Common.cpp               | 25 ++++++++++++++++++-------
 Core/ExpressionFunctions.cpp  | 27 ++++++++++++++++++++++++---
 Core/FileManager.cpp          | 14 ++++++++++++--
 Main/CommandLineInterface.cpp | 15 +++++++++++++--
 Parser/DirectivesParser.cpp   |  3 ++-
 7 files changed, 80 insertions(+), 20 deletions(-)

diff --git a/Commands/CDirectiveData.cpp b/Commands/CDirectiveData.cpp
index d93c793..06b0eac 100644
--- a/Commands/CDirectiveData.cpp
+++ b/Commands/CDirectiveData.cpp
@@ -17,7 +17,8 @@ TableCommand::TableCommand(const fs::path& fileName, TextFile::Encoding encoding
 {
 	auto fullName = getFullPathName(fileName);
 
-	if (!fs::exists(fullName))
+	std::error_code error;
+	if (!fs::exists(fullName, error))
 	{
 		Logger::printError(Logger::Error, "Table file \"%s\" does not exist", fileName.u8string());
 		return;
diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index c2c4ba1..ff362cc 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -223,13 +223,18 @@ CDirectiveIncbin::CDirectiveIncbin(const fs::path& fileName)
 {
 	this->fileName = getFullPathName(fileName);
 
-	if (!fs::exists(this->fileName))
+	std::error_code error;
+	bool exists = fs::exists(this->fileName, error);
+	this->fileSize = static_cast<int64_t>(fs::file_size(this->fileName, error));
+
+	if (!exists)
 	{
 		Logger::printError(Logger::FatalError, "File %s not found",this->fileName.u8string());
 	}
-
-	std::error_code error;
-	this->fileSize = static_cast<int64_t>(fs::file_size(this->fileName, error));
+	else if (error)
+	{
+		Logger::printError(Logger::FatalError, "Could not get size of file %s",this->fileName.u8string());
+	}
 }
 
 bool CDirectiveIncbin::Validate(const ValidateState &state)
diff --git a/Core/Common.cpp b/Core/Common.cpp
index f1ec7ab..928b5df 100644
--- a/Core/Common.cpp
+++ b/Core/Common.cpp
@@ -3,6 +3,7 @@
 #include "Commands/CAssemblerLabel.h"
 #include "Core/Assembler.h"
 #include "Core/FileManager.h"
+#include "Core/Misc.h"
 #include "Util/Util.h"
 
 #include <sys/stat.h>
@@ -49,11 +50,14 @@ void FileList::clear()
 }
 
 FileList::Entry::Entry(const fs::path &path) :
-	_path(path),
-	_relativePath(path.lexically_proximate(fs::current_path())),
-	_string(_path.u8string()),
-	_relativeString(_relativePath.generic_u8string())
+	_path(path)
 {
+	// keep the full path if it's not known what it would be relative to
+	std::error_code error;
+	_relativePath = path.lexically_proximate(fs::current_path(error));
+
+	_string = _path.u8string();
+	_relativeString = _relativePath.generic_u8string();
 }
 
 const fs::path &FileList::Entry::path() const
@@ -78,15 +82,22 @@ const std::string &FileList::Entry::relativeString() const
 
 fs::path getFullPathName(const fs::path& path)
 {
+	fs::path name = path;
 	if (Global.relativeInclude && !path.is_absolute())
 	{
 		const fs::path &source = Global.fileList.path(Global.FileInfo.FileNum);
-		return fs::absolute(source.parent_path() / path).lexically_normal();
+		name = source.parent_path() / path;
 	}
-	else
+
+	std::error_code error;
+	fs::path fullName = fs::absolute(name, error).lexically_normal();
+	if (error)
 	{
-		return fs::absolute(path).lexically_normal();
+		Logger::printError(Logger::Error, "Could not determine the full path of \"%s\"", name.u8string());
+		return name;
 	}
+
+	return fullName;
 }
 
 bool checkLabelDefined(const Identifier& labelName, int section)
diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 51b3c92..86b8243 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -110,7 +110,16 @@ ExpressionValue expFuncFileExists(const Identifier &funcName, const std::vector<
 	GET_PARAM(parameters,0,fileName);
 
 	auto fullName = getFullPathName(fileName->path());
-	return ExpressionValue(fs::exists(fullName) ? INT64_C(1) : INT64_C(0));
+
+	std::error_code error;
+	bool exists = fs::exists(fullName, error);
+	if (error)
+	{
+		Logger::queueError(Logger::Error, "%s: Could not access %s", funcName, *fileName);
+		return ExpressionValue();
+	}
+
+	return ExpressionValue(exists ? INT64_C(1) : INT64_C(0));
 }
 
 ExpressionValue expFuncFileSize(const Identifier &funcName, const std::vector<ExpressionValue>& parameters)
@@ -121,7 +130,14 @@ ExpressionValue expFuncFileSize(const Identifier &funcName, const std::vector<Ex
 	auto fullName = getFullPathName(fileName->path());
 
 	std::error_code error;
-	return ExpressionValue(static_cast<int64_t>(fs::file_size(fullName, error)));
+	int64_t size = static_cast<int64_t>(fs::file_size(fullName, error));
+	if (error && (fs::exists(fullName, error) || error))
+	{
+		Logger::queueError(Logger::Error, "%s: Could not get size of %s", funcName, *fileName);
+		return ExpressionValue();
+	}
+
+	return ExpressionValue(size);
 }
 
 ExpressionValue expFuncToString(const Identifier &funcName, const std::vector<ExpressionValue>& parameters)
@@ -531,6 +547,11 @@ ExpressionValue expFuncReadAscii(const Identifier &funcName, const std::vector<E
 
 	std::error_code error;
 	int64_t totalSize = static_cast<int64_t>(fs::file_size(fullName, error));
+	if (error)
+	{
+		Logger::queueError(Logger::Error, "Could not open %s", *fileName);
+		return ExpressionValue();
+	}
 
 	if (length == 0 || start+length > totalSize)
 		length = totalSize-start;
@@ -560,7 +581,7 @@ ExpressionValue expFuncReadAscii(const Identifier &funcName, const std::vector<E
 		file.read(buffer, bytesToRead);
 		if (file.fail())
 		{
-			Logger::queueError(Logger::Error, "Failed to read %d byte(s) from offset 0x%08X of %s", bytesToRead, *fileName);
+			Logger::queueError(Logger::Error, "Failed to read %d byte(s) from offset 0x%08X of %s", bytesToRead, start + progress, *fileName);
 			return ExpressionValue();
 		}
 
diff --git a/Core/FileManager.cpp b/Core/FileManager.cpp
index 569402b..08dc4be 100644
--- a/Core/FileManager.cpp
+++ b/Core/FileManager.cpp
@@ -104,7 +104,12 @@ bool GenericAssemblerFile::open(bool onlyCheck)
 
 	case Create:
 		// open file with writee access. if it didn't exist before, remove it afterwards
-		exists = fs::exists(fileName);
+		exists = fs::exists(fileName, errorCode);
+		if (errorCode)
+		{
+			Logger::queueError(Logger::FatalError, "Could not create file %s",fileName.u8string());
+			return false;
+		}
 
 		temp.open(fileName, exists ? flagsOpenExisting : flagsOverwrite);
 		if (!temp.is_open())
@@ -138,7 +143,12 @@ bool GenericAssemblerFile::open(bool onlyCheck)
 		}
 
 		// check new file, same as create
-		exists = fs::exists(fileName);
+		exists = fs::exists(fileName, errorCode);
+		if (errorCode)
+		{
+			Logger::queueError(Logger::FatalError, "Could not create file %s",fileName.u8string());
+			return false;
+		}
 
 		temp.open(fileName, exists ? flagsOpenExisting : flagsOverwrite);
 		if (!temp.is_open())
diff --git a/Main/CommandLineInterface.cpp b/Main/CommandLineInterface.cpp
index f423c93..f4b7b97 100644
--- a/Main/CommandLineInterface.cpp
+++ b/Main/CommandLineInterface.cpp
@@ -190,9 +190,20 @@ static bool parseArguments(const std::vector<std::string>& arguments, ArmipsArgu
 
 	// turn input filename into an absolute path
 	if (settings.useAbsoluteFileNames)
-		settings.inputFileName = fs::absolute(settings.inputFileName).lexically_normal();
+	{
+		std::error_code errorCode;
+		fs::path absoluteName = fs::absolute(settings.inputFileName, errorCode).lexically_normal();
+
+		if (errorCode)
+		{
+			Logger::printError(Logger::Error, "Could not determine the full path of \"%s\"", settings.inputFileName.u8string());
+			return false;
+		}
+		settings.inputFileName = absoluteName;
+	}
 
-	if (!fs::exists(settings.inputFileName))
+	std::error_code errorCode;
+	if (!fs::exists(settings.inputFileName, errorCode))
 	{
 		Logger::printError(Logger::Error, "File \"%s\" not found", settings.inputFileName.u8string());
 		return false;
diff --git a/Parser/DirectivesParser.cpp b/Parser/DirectivesParser.cpp
index d20d401..b0b04de 100644
--- a/Parser/DirectivesParser.cpp
+++ b/Parser/DirectivesParser.cpp
@@ -731,7 +731,8 @@ std::unique_ptr<CAssemblerCommand> parseDirectiveInclude(Parser& parser, int fla
 	if (!parser.isInsideTrueBlock())
 		return std::make_unique<DummyCommand>();
 
-	if (!fs::exists(fileName))
+	std::error_code error;
+	if (!fs::exists(fileName, error))
 	{
 		parser.printError(start, "Included file \"%s\" does not exist",fileName.u8string());
 		return nullptr;
-- 
2.43.0


From 277ca0888a9b22f2e8c2d3e05888ad540dccd2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:20 +0000
Subject: [PATCH 12/44] fix: forget the entries of the previous table when
 clearing an encoding table

---
 Util/EncodingTable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Util/EncodingTable.cpp b/Util/EncodingTable.cpp
index 4889af9..18a462b 100644
--- a/Util/EncodingTable.cpp
+++ b/Util/EncodingTable.cpp
@@ -78,6 +78,7 @@ void EncodingTable::clear()
 {
 	hexData.clear();
 	entries.clear();
+	lookup = Trie();
 }
 
 int parseHexString(std::string& hex, unsigned char* dest)
@@ -117,6 +118,7 @@ bool EncodingTable::load(const fs::path& fileName, TextFile::Encoding encoding)
 
 	hexData.clear();
 	entries.clear();
+	lookup = Trie();
 	setTerminationEntry((unsigned char*)"\0",1);
 
 	while (!input.atEnd())
-- 
2.43.0


From 150d9ede58c3dd384fd02d6da6ef85af20382aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:23 +0000
Subject: [PATCH 13/44] fix: forget pools and sub areas of the previous run

---
 Core/Allocations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 7f21b93..e38f643 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -17,6 +17,8 @@ bool Allocations::keptPositions = false;
 void Allocations::clear()
 {
 	allocations.clear();
+	pools.clear();
+	subAreas.clear();
 	keepPositions = false;
 	nextKeepPositions = true;
 	keptPositions = false;
-- 
2.43.0


From 2e4ec368a028421b0341c6f8b1b066b8f40f9a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:28 +0000
Subject: [PATCH 14/44] fix: reset MIPS load delay settings and the file
 manager at the start of a run

---
 Archs/MIPS/Mips.cpp | 5 +++++
 Archs/MIPS/Mips.h   | 1 +
 Core/Assembler.cpp  | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/Archs/MIPS/Mips.cpp b/Archs/MIPS/Mips.cpp
index 38ab5f1..dfedc95 100644
--- a/Archs/MIPS/Mips.cpp
+++ b/Archs/MIPS/Mips.cpp
@@ -7,6 +7,11 @@
 CMipsArchitecture Mips;
 
 CMipsArchitecture::CMipsArchitecture()
+{
+	clear();
+}
+
+void CMipsArchitecture::clear()
 {
 	FixLoadDelay = false;
 	IgnoreLoadDelay = false;
diff --git a/Archs/MIPS/Mips.h b/Archs/MIPS/Mips.h
index 5de8073..4bc5aa1 100644
--- a/Archs/MIPS/Mips.h
+++ b/Archs/MIPS/Mips.h
@@ -10,6 +10,7 @@ class CMipsArchitecture: public Architecture
 {
 public:
 	CMipsArchitecture();
+	void clear();
 	virtual std::unique_ptr<CAssemblerCommand> parseDirective(Parser& parser);
 	virtual std::unique_ptr<CAssemblerCommand> parseOpcode(Parser& parser);
 	virtual void registerExpressionFunctions(ExpressionFunctionHandler &handler);
diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index 0d89d69..adb4826 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -170,6 +170,8 @@ bool runArmips(ArmipsArguments& settings)
 	Global.FileInfo.FileNum = 0;
 
 	Arm.clear();
+	Mips.clear();
+	g_fileManager->reset();
 
 	ExpressionFunctionHandler::instance().reset();
 	registerExpressionFunctions(ExpressionFunctionHandler::instance());
-- 
2.43.0


From 318d663e217bdd26c30beeb2869e5d44ad6755f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:31 +0000
Subject: [PATCH 15/44] fix: don't report command line errors with an earlier
 run's settings and position

---
 Main/CommandLineInterface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Main/CommandLineInterface.cpp b/Main/CommandLineInterface.cpp
index f4b7b97..3150fdb 100644
--- a/Main/CommandLineInterface.cpp
+++ b/Main/CommandLineInterface.cpp
@@ -213,6 +213,10 @@ static bool parseArguments(const std::vector<std::string>& arguments, ArmipsArgu
 
 int runFromCommandLine(const std::vector<std::string>& arguments, ArmipsArguments settings)
 {
+	// an earlier run's position doesn't apply to the command line
+	Logger::clear();
+	Global.fileList.clear();
+
 	if (!parseArguments(arguments, settings))
 	{
 		if (arguments.size() > 1 && !settings.silent)
-- 
2.43.0


From 9702547fb8172bf21477f164f89d42e514315b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:00 +0000
Subject: [PATCH 16/44] fix: identify files by their order in the source
 instead of their address

---
 Core/FileManager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Core/FileManager.cpp b/Core/FileManager.cpp
index 08dc4be..9ad2c96 100644
--- a/Core/FileManager.cpp
+++ b/Core/FileManager.cpp
@@ -5,6 +5,8 @@
 #include "Util/FileSystem.h"
 #include "Util/Util.h"
 
+#include <algorithm>
+
 inline uint64_t swapEndianness64(uint64_t value)
 {
 	return ((value & 0xFF) << 56) | ((value & 0xFF00) << 40) | ((value & 0xFF0000) << 24) | ((value & 0xFF000000) << 8) |
@@ -406,6 +408,7 @@ int64_t FileManager::getOpenFileID()
 	if (!checkActiveFile())
 		return 0;
 
-	static_assert(sizeof(int64_t) >= sizeof(intptr_t), "Assumes pointers are <= 64 bit");
-	return (int64_t)(intptr_t)activeFile.get();
+	// number files in the order they appear in the source. anything derived from their address in
+	// memory would make the order of areas differ between runs
+	return std::find(files.begin(), files.end(), activeFile) - files.begin() + 1;
 }
-- 
2.43.0


From 66020332693a500c35f265640701b53619c95c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:32 +0000
Subject: [PATCH 17/44] fix: return the errors of a run that ends before
 assembling anything

---
 Core/Assembler.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index adb4826..49bcf81 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -202,8 +202,21 @@ bool runArmips(ArmipsArguments& settings)
 		symData.addLabel(label.value, label.name.string());
 	}
 
+	auto returnErrors = [&]()
+	{
+		if (settings.errorsResult != nullptr)
+		{
+			std::vector<std::string> errors = Logger::getErrors();
+			for (size_t i = 0; i < errors.size(); i++)
+				settings.errorsResult->push_back(errors[i]);
+		}
+	};
+
 	if (Logger::hasError())
+	{
+		returnErrors();
 		return false;
+	}
 
 	// run assembler
 	TextFile input;
@@ -214,6 +227,7 @@ bool runArmips(ArmipsArguments& settings)
 		if (!input.open(settings.inputFileName,TextFile::Read))
 		{
 			Logger::printError(Logger::Error, "Could not open file");
+			returnErrors();
 			return false;
 		}
 		break;
@@ -238,13 +252,7 @@ bool runArmips(ArmipsArguments& settings)
 		g_fileManager->closeFile();
 	}
 
-	// return errors
-	if (settings.errorsResult != nullptr)
-	{
-		std::vector<std::string> errors = Logger::getErrors();
-		for (size_t i = 0; i < errors.size(); i++)
-			settings.errorsResult->push_back(errors[i]);
-	}
+	returnErrors();
 
 	if (settings.showStats)
 		printStats(Allocations::collectStats());
-- 
2.43.0


From 90e21f62e629c0a6ca1a2737c7d5e1043d56a99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:34 +0000
Subject: [PATCH 18/44] fix: don't look up the file name of code assembled from
 memory

---
 Core/Common.cpp | 2 +-
 Core/Misc.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/Core/Common.cpp b/Core/Common.cpp
index 928b5df..6d2923b 100644
--- a/Core/Common.cpp
+++ b/Core/Common.cpp
@@ -83,7 +83,7 @@ const std::string &FileList::Entry::relativeString() const
 fs::path getFullPathName(const fs::path& path)
 {
 	fs::path name = path;
-	if (Global.relativeInclude && !path.is_absolute())
+	if (Global.relativeInclude && !path.is_absolute() && size_t(Global.FileInfo.FileNum) < Global.fileList.size())
 	{
 		const fs::path &source = Global.fileList.path(Global.FileInfo.FileNum);
 		name = source.parent_path() / path;
diff --git a/Core/Misc.cpp b/Core/Misc.cpp
index 4533f3d..2eb826e 100644
--- a/Core/Misc.cpp
+++ b/Core/Misc.cpp
@@ -175,8 +175,12 @@ void TempData::writeLine(int64_t memoryAddress, const std::string& text)
 		while (str.size() < 70)
 			str += ' ';
 
-		str += tfm::format("; %S line %d",
-			Global.fileList.string(Global.FileInfo.FileNum),Global.FileInfo.LineNumber);
+		// code assembled from memory doesn't belong to a file
+		if (size_t(Global.FileInfo.FileNum) >= Global.fileList.size())
+			str += tfm::format("; line %d",Global.FileInfo.LineNumber);
+		else
+			str += tfm::format("; %S line %d",
+				Global.fileList.string(Global.FileInfo.FileNum),Global.FileInfo.LineNumber);
 
 		file.writeLine(str);
 	}
-- 
2.43.0


From edd90d91ab75b97208e373343cf2f06e6b1dfb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:45 +0000
Subject: [PATCH 19/44] fix: forget the terminator of the previous table when
 clearing an encoding table

---
 Util/EncodingTable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Util/EncodingTable.cpp b/Util/EncodingTable.cpp
index 18a462b..9382298 100644
--- a/Util/EncodingTable.cpp
+++ b/Util/EncodingTable.cpp
@@ -79,6 +79,7 @@ void EncodingTable::clear()
 	hexData.clear();
 	entries.clear();
 	lookup = Trie();
+	terminationEntry = {};
 }
 
 int parseHexString(std::string& hex, unsigned char* dest)
-- 
2.43.0


From 07f79884a188b5d6c68de00d034566197ed55351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:25 +0000
Subject: [PATCH 20/44] fix: reject negative import ranges before any output is
 written

---
 Commands/CDirectiveFile.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index ff362cc..c522821 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -249,6 +249,12 @@ bool CDirectiveIncbin::Validate(const ValidateState &state)
 			return false;
 		}
 
+		if (start < 0)
+		{
+			Logger::queueError(Logger::Error, "Negative start position");
+			return false;
+		}
+
 		if (start > fileSize)
 		{
 			Logger::queueError(Logger::Error, "Start position past end of file");
@@ -265,6 +271,12 @@ bool CDirectiveIncbin::Validate(const ValidateState &state)
 			Logger::queueError(Logger::Error, "Invalid size expression");
 			return false;
 		}
+
+		if (size < 0)
+		{
+			Logger::queueError(Logger::Error, "Negative size");
+			return false;
+		}
 	} else {
 		size = fileSize-start;
 	}
-- 
2.43.0


From a5e3932a29db04920aa49c9b3d74ee749e42ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:30 +0000
Subject: [PATCH 21/44] fix: reject negative fill sizes

---
 Commands/CDirectiveFile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index c522821..91148b3 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -354,6 +354,12 @@ bool CDirectiveAlignFill::Validate(const ValidateState &state)
 		}
 	}
 
+	if (mode == Fill && value < 0)
+	{
+		Logger::queueError(Logger::Error, "Invalid size %d", value);
+		return false;
+	}
+
 	if (mode != Fill && !isPowerOfTwo(value))
 	{
 		Logger::queueError(Logger::Error, "Invalid alignment %d", value);
-- 
2.43.0


From 8d42438668a33c6b02b3829d55d09dc173162868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:48 +0000
Subject: [PATCH 22/44] fix: report a file that is not closed before any output
 is written

---
 Core/Assembler.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/Core/Assembler.cpp b/Core/Assembler.cpp
index 49bcf81..ee607d0 100644
--- a/Core/Assembler.cpp
+++ b/Core/Assembler.cpp
@@ -54,8 +54,13 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 		Mips.Revalidate();
 		SuperH.Revalidate();
 
-		if (Global.memoryMode)
+		if (g_fileManager->hasOpenFile())
+		{
+			// report this before anything is written, it may be treated as an error
+			if (!Global.memoryMode)
+				Logger::queueError(Logger::Warning, "File not closed");
 			g_fileManager->closeFile();
+		}
 
 		validation.passes++;
 	} while (Revalidate);
@@ -116,11 +121,7 @@ bool encodeAssembly(std::unique_ptr<CAssemblerCommand> content, SymbolData& symD
 	}
 
 	if (g_fileManager->hasOpenFile())
-	{
-		if (!Global.memoryMode)
-			Logger::printError(Logger::Warning, "File not closed");
 		g_fileManager->closeFile();
-	}
 
 	if (Logger::hasError())
 	{
@@ -246,11 +247,7 @@ bool runArmips(ArmipsArguments& settings)
 		result = encodeAssembly(std::move(content), symData, tempData);
 	
 	if (g_fileManager->hasOpenFile())
-	{
-		if (!Global.memoryMode)
-			Logger::printError(Logger::Warning, "File not closed");
 		g_fileManager->closeFile();
-	}
 
 	returnErrors();
 
-- 
2.43.0


From ad033d415b7c661aa11ec23234aa9c9622f97a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:33 +0000
Subject: [PATCH 23/44] fix: don't use a file that is not open in .headersize

---
 Commands/CDirectiveFile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index 91148b3..d86c288 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -491,9 +491,14 @@ CDirectiveHeaderSize::CDirectiveHeaderSize(Expression expression)
 void CDirectiveHeaderSize::exec() const
 {
 	std::shared_ptr<AssemblerFile> openFile = g_fileManager->getOpenFile();
+	if (openFile == nullptr)
+	{
+		Logger::queueError(Logger::Error, "No file opened");
+		return;
+	}
 	if (!openFile->hasFixedVirtualAddress())
 	{
-		Logger::printError(Logger::Error, "Header size not applicable for this file");
+		Logger::queueError(Logger::Error, "Header size not applicable for this file");
 		return;
 	}
 	std::shared_ptr<GenericAssemblerFile> file = std::static_pointer_cast<GenericAssemblerFile>(openFile);
-- 
2.43.0


From 367b9c2f92a7c01fd16f081f9e8cbb279fe9c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:34 +0000
Subject: [PATCH 24/44] fix: relocation data of an imported symbol started out
 uninitialised

For a symbol that is not a function no relocator sets targetSymbolInfo, so the
imported label's info was whatever the stack held, and an absolute ARM
relocation against it from another object could get the Thumb bit set.
---
 Core/ELF/ElfFile.h      | 16 ++++++++--------
 Core/ELF/ElfRelocator.h |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/Core/ELF/ElfFile.h b/Core/ELF/ElfFile.h
index 951ff42..e52e385 100644
--- a/Core/ELF/ElfFile.h
+++ b/Core/ELF/ElfFile.h
@@ -112,12 +112,12 @@ private:
 
 struct RelocationData
 {
-	int64_t opcodeOffset;
-	int64_t relocationBase;
-	uint32_t opcode;
-	int32_t addend;
-
-	int64_t symbolAddress;
-	int targetSymbolType;
-	int targetSymbolInfo;
+	int64_t opcodeOffset = 0;
+	int64_t relocationBase = 0;
+	uint32_t opcode = 0;
+	int32_t addend = 0;
+
+	int64_t symbolAddress = 0;
+	int targetSymbolType = 0;
+	int targetSymbolInfo = 0;
 };
diff --git a/Core/ELF/ElfRelocator.h b/Core/ELF/ElfRelocator.h
index dc49546..a6ebe7e 100644
--- a/Core/ELF/ElfRelocator.h
+++ b/Core/ELF/ElfRelocator.h
@@ -52,7 +52,7 @@ struct ElfRelocatorSymbol
 	std::shared_ptr<Label> label;
 	std::string name;
 	int64_t relativeAddress;
-	int64_t relocatedAddress;
+	int64_t relocatedAddress = 0;
 	size_t section;
 	size_t size;
 	int type;
-- 
2.43.0


From f09e3e3dff617475eb8a6bf4ec4c6e13927d40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:11 +0000
Subject: [PATCH 25/44] fix: don't treat a host-supplied output object as a
 generic file in .headersize

The object passed to assemble in memory mode need not be a
GenericAssemblerFile; setting its header size overwrote memory.
---
 Commands/CDirectiveFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index d86c288..fbbdb36 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -496,12 +496,13 @@ void CDirectiveHeaderSize::exec() const
 		Logger::queueError(Logger::Error, "No file opened");
 		return;
 	}
-	if (!openFile->hasFixedVirtualAddress())
+	// an output object supplied by an embedding host is of another type
+	std::shared_ptr<GenericAssemblerFile> file = std::dynamic_pointer_cast<GenericAssemblerFile>(openFile);
+	if (file == nullptr || !file->hasFixedVirtualAddress())
 	{
 		Logger::queueError(Logger::Error, "Header size not applicable for this file");
 		return;
 	}
-	std::shared_ptr<GenericAssemblerFile> file = std::static_pointer_cast<GenericAssemblerFile>(openFile);
 	int64_t physicalAddress = file->getPhysicalAddress();
 	file->setHeaderSize(headerSize);
 	file->seekPhysical(physicalAddress);
-- 
2.43.0


From 4f5b53ef3c22dcd2da28bc546a65b05f338b2174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:06 +0000
Subject: [PATCH 26/44] fix: report errors found while validating once, not
 once per pass

These messages were printed as soon as they were found, so they appeared again
for every validation pass, and even if a later pass found nothing wrong.
---
 Archs/Architecture.cpp       | 2 +-
 Archs/MIPS/MipsElfFile.cpp   | 2 +-
 Commands/CAssemblerLabel.cpp | 2 +-
 Commands/CDirectiveFile.cpp  | 2 +-
 Core/ExpressionFunctions.cpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Archs/Architecture.cpp b/Archs/Architecture.cpp
index ea36e9c..28581dd 100644
--- a/Archs/Architecture.cpp
+++ b/Archs/Architecture.cpp
@@ -75,7 +75,7 @@ void ArchitectureCommand::writeSymData(SymbolData& symData) const
 
 void CInvalidArchitecture::NextSection()
 {
-	Logger::printError(Logger::FatalError, "No architecture specified");
+	Logger::queueError(Logger::FatalError, "No architecture specified");
 }
 
 void CInvalidArchitecture::Pass2()
diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index 5177291..96986a8 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -111,7 +111,7 @@ bool MipsElfFile::seekVirtual(int64_t virtualAddress)
 	}
 
 	// segmentless sections don't have a virtual address
-	Logger::printError(Logger::Error, "Couldn't find a mapped section");
+	Logger::queueError(Logger::Error, "Couldn't find a mapped section");
 	return false;
 }
 
diff --git a/Commands/CAssemblerLabel.cpp b/Commands/CAssemblerLabel.cpp
index 3ca67dd..398fa6c 100644
--- a/Commands/CAssemblerLabel.cpp
+++ b/Commands/CAssemblerLabel.cpp
@@ -65,7 +65,7 @@ bool CAssemblerLabel::Validate(const ValidateState &state)
 		// label value is given by expression
 		if (!labelValue.evaluateInteger(virtualValue))
 		{
-			Logger::printError(Logger::Error, "Invalid expression");
+			Logger::queueError(Logger::Error, "Invalid expression");
 			return result;
 		}
 	} else {
diff --git a/Commands/CDirectiveFile.cpp b/Commands/CDirectiveFile.cpp
index fbbdb36..7661fa8 100644
--- a/Commands/CDirectiveFile.cpp
+++ b/Commands/CDirectiveFile.cpp
@@ -387,7 +387,7 @@ bool CDirectiveAlignFill::Validate(const ValidateState &state)
 	{
 		if (!fillExpression.evaluateInteger(fillByte))
 		{
-			Logger::printError(Logger::FatalError, "Invalid fill value");
+			Logger::queueError(Logger::FatalError, "Invalid fill value");
 			return false;
 		}
 	}
diff --git a/Core/ExpressionFunctions.cpp b/Core/ExpressionFunctions.cpp
index 86b8243..4197ea3 100644
--- a/Core/ExpressionFunctions.cpp
+++ b/Core/ExpressionFunctions.cpp
@@ -595,7 +595,7 @@ ExpressionValue expFuncReadAscii(const Identifier &funcName, const std::vector<E
 
 			if (buffer[i] < 0x20)
 			{
-				Logger::printError(Logger::Warning, "%s: Non-ASCII character", funcName);
+				Logger::queueError(Logger::Warning, "%s: Non-ASCII character", funcName);
 				return ExpressionValue();
 			}
 
-- 
2.43.0


From 6887c2d254373d51015280724debaf04b2b6814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:36 +0000
Subject: [PATCH 27/44] fix: count characters of ASCII files once so that they
 are read to the end

---
 Util/FileClasses.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index c340b89..790e2a9 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -881,7 +881,6 @@ char32_t TextFile::readCharacter()
 		break;
 	case ASCII:
 		value = bufGetChar();
-		contentPos++;
 		break;
 
 	case GUESS:
-- 
2.43.0


From 7e620bb1e7579578abf3b8920462c95b7c7bc764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:36 +0000
Subject: [PATCH 28/44] fix: drop the read buffer when stepping back after a
 lone carriage return

---
 Util/FileClasses.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 790e2a9..8ebd0ee 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -801,10 +801,16 @@ long TextFile::tell()
 
 void TextFile::seek(long pos)
 {
-	if (fromMemory)
-		contentPos = pos;
-	else
+	contentPos = pos;
+
+	if (!fromMemory)
+	{
+		// nothing that has been buffered is at the new position
+		stream.clear();
 		stream.seekg(pos);
+		buf.clear();
+		bufPos = 0;
+	}
 }
 
 void TextFile::bufFillRead()
-- 
2.43.0


From 910b5385e640e16ceff2ef41520eb0f9f5ffcac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:30 +0000
Subject: [PATCH 29/44] fix: read half width katakana in Shift-JIS text as
 single bytes

---
 Util/FileClasses.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Util/FileClasses.cpp b/Util/FileClasses.cpp
index 8ebd0ee..ff1c711 100644
--- a/Util/FileClasses.cpp
+++ b/Util/FileClasses.cpp
@@ -876,7 +876,8 @@ char32_t TextFile::readCharacter()
 	case SJIS:
 		{
 			unsigned short sjis = bufGetChar();
-			if (sjis >= 0x80)
+			// half width katakana are single bytes
+			if (sjis >= 0x80 && (sjis < 0xA0 || sjis >= 0xE0))
 				sjis = (sjis << 8) | bufGetChar();
 
 			if (auto unicode = sjisToUnicode(sjis))
-- 
2.43.0


From 1d67fab04a5829755e09bd510cdf07f658272e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:10 +0000
Subject: [PATCH 30/44] fix: areas without own parts no longer take over those
 of a region at the same position

The fill of a plain area (or of a smaller region) that starts where a region
with automatic parts starts was reduced by the size of those parts; the
remaining size became negative and the output was filled without end.
---
 Commands/CDirectiveArea.cpp | 15 ++++++++++++---
 Commands/CDirectiveArea.h   |  2 ++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 4580dd0..85a32cf 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -25,6 +25,15 @@ void CDirectiveArea::setPositionExpression(Expression& exp)
 	positionExpression = exp;
 }
 
+int64_t CDirectiveArea::getSubAreaUsage() const
+{
+	// only regions have parts placed in them, and a larger one may start at the same position
+	if (!shared)
+		return 0;
+
+	return std::min(Allocations::getSubAreaUsage(fileID, position), areaSize-contentSize);
+}
+
 bool CDirectiveArea::Validate(const ValidateState &state)
 {
 	int64_t oldAreaSize = areaSize;
@@ -114,7 +123,7 @@ void CDirectiveArea::Encode() const
 
 	if (fillExpression.isLoaded())
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position);
+		int64_t subAreaUsage = getSubAreaUsage();
 		if (subAreaUsage != 0)
 			g_fileManager->advanceMemory(subAreaUsage);
 
@@ -150,7 +159,7 @@ void CDirectiveArea::writeTempData(TempData& tempData) const
 
 	if (fillExpression.isLoaded() && !shared)
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position);
+		int64_t subAreaUsage = getSubAreaUsage();
 		if (subAreaUsage != 0)
 			tempData.writeLine(position+contentSize, tfm::format(".skip 0x%08llX",subAreaUsage));
 
@@ -169,7 +178,7 @@ void CDirectiveArea::writeSymData(SymbolData& symData) const
 
 	if (fillExpression.isLoaded())
 	{
-		int64_t subAreaUsage = Allocations::getSubAreaUsage(fileID, position);
+		int64_t subAreaUsage = getSubAreaUsage();
 		symData.addData(position+contentSize+subAreaUsage,areaSize-contentSize-subAreaUsage,SymbolData::Data8);
 	}
 }
diff --git a/Commands/CDirectiveArea.h b/Commands/CDirectiveArea.h
index 7677633..118f1f9 100644
--- a/Commands/CDirectiveArea.h
+++ b/Commands/CDirectiveArea.h
@@ -15,6 +15,8 @@ public:
 	void setPositionExpression(Expression& exp);
 	void setContent(std::unique_ptr<CAssemblerCommand> content) { this->content = std::move(content); }
 private:
+	int64_t getSubAreaUsage() const;
+
 	bool shared;
 	int64_t position = 0;
 	Expression sizeExpression;
-- 
2.43.0


From 1e7e5154598ea8431b8e6ef5ca3699312164710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 31/44] fix: refuse incomplete archives instead of reading past
 their end

A library cut short, or with a damaged size field, made the reader run
outside of the file or loop for ever.
---
 Core/ELF/ElfRelocator.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 3401bd5..6207ec2 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -48,22 +48,32 @@ std::vector<ArFileEntry> loadArArchive(const fs::path& inputName)
 	size_t pos = 8;
 	while (pos < input.size())
 	{
+		// the archive is incomplete
+		if (input.size()-pos < sizeof(ArFileHeader))
+			return {};
+
 		ArFileHeader* header = (ArFileHeader*) input.data(pos);
 		pos += sizeof(ArFileHeader);
 		
 		// get file size
-		int size = 0;
+		size_t size = 0;
 		for (int i = 0; i < 10; i++)
 		{
 			if (header->fileSize[i] == ' ')
 				break;
 
+			if (header->fileSize[i] < '0' || header->fileSize[i] > '9')
+				return {};
+
 			size = size*10;
 			size += (header->fileSize[i]-'0');
 		}
 
+		if (size > input.size()-pos)
+			return {};
+
 		// only ELF files are actually interesting
-		if (memcmp(input.data(pos),"\x7F""ELF",4) == 0)
+		if (size >= 4 && memcmp(input.data(pos),"\x7F""ELF",4) == 0)
 		{
 			// get file name
 			char fileName[17];
-- 
2.43.0


From 53b10157b583b3d1f165eeb562c6a7eefa039e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 32/44] fix: refuse ELF files whose tables, sections or names
 lie outside of the file

Objects and executables that were cut short or contain zeroed parts were
read past their end, which crashed or took practically for ever.
---
 Core/ELF/ElfFile.cpp      | 43 ++++++++++++++++++++++++++++++++-------
 Core/ELF/ElfFile.h        |  1 +
 Core/ELF/ElfRelocator.cpp | 27 +++++++++++++++++++++---
 3 files changed, 61 insertions(+), 10 deletions(-)

diff --git a/Core/ELF/ElfFile.cpp b/Core/ELF/ElfFile.cpp
index beb7503..4e4c5f9 100644
--- a/Core/ELF/ElfFile.cpp
+++ b/Core/ELF/ElfFile.cpp
@@ -187,14 +187,22 @@ void ElfSegment::sortSections()
 	std::sort(sections.begin(),sections.end(),compareSection);
 }
 
+bool ElfFile::isInsideFile(size_t pos, size_t size)
+{
+	return size == 0 || (pos <= fileData.size() && size <= fileData.size()-pos);
+}
+
 void ElfFile::loadSectionNames()
 {
-	if (fileHeader.e_shstrndx == SHN_UNDEF) return;
+	if (fileHeader.e_shstrndx == SHN_UNDEF || fileHeader.e_shstrndx >= sections.size()) return;
 
 	// check if the string table is actually a string table
 	// sometimes it gives the wrong section id
 	size_t strTablePos = sections[fileHeader.e_shstrndx]->getOffset();
 	size_t strTableSize = sections[fileHeader.e_shstrndx]->getSize();
+	if (!isInsideFile(strTablePos,strTableSize))
+		return;
+
 	for (size_t i = 0; i < strTableSize; i++)
 	{
 		if (fileData[strTablePos+i] != 0 && fileData[strTablePos+i] < 0x20)
@@ -208,11 +216,10 @@ void ElfFile::loadSectionNames()
 		ElfSection* section = sections[i];
 		if (section->getType() == SHT_NULL) continue;
 
-		int strTablePos = sections[fileHeader.e_shstrndx]->getOffset();
-		int offset = strTablePos+section->getNameOffset();
+		if (section->getNameOffset() >= strTableSize) continue;
 
-		char* name = (char*) fileData.data(offset);
-		std::string strName = name;
+		const char* name = (const char*) fileData.data(strTablePos+section->getNameOffset());
+		std::string strName(name,strnlen(name,strTableSize-section->getNameOffset()));
 		section->setName(strName);
 	}
 }
@@ -360,6 +367,9 @@ bool ElfFile::load(ByteArray& data, bool sort)
 {
 	fileData = data;
 
+	if (fileData.size() < sizeof(Elf32_Ehdr))
+		return false;
+
 	loadElfHeader();
 	symTab = nullptr;
 	strTab = nullptr;
@@ -368,10 +378,15 @@ bool ElfFile::load(ByteArray& data, bool sort)
 	for (size_t i = 0; i < fileHeader.e_phnum; i++)
 	{
 		size_t pos = fileHeader.e_phoff+i*fileHeader.e_phentsize;
+		if (!isInsideFile(pos,sizeof(Elf32_Phdr)))
+			return false;
 		
 		Elf32_Phdr sectionHeader;
 		loadProgramHeader(sectionHeader, fileData, pos);
 
+		if (!isInsideFile(sectionHeader.p_offset,sectionHeader.p_filesz))
+			return false;
+
 		ByteArray segmentData = fileData.mid(sectionHeader.p_offset,sectionHeader.p_filesz);
 		ElfSegment* segment = new ElfSegment(sectionHeader,segmentData);
 		segments.push_back(segment);
@@ -381,10 +396,16 @@ bool ElfFile::load(ByteArray& data, bool sort)
 	for (int i = 0; i < fileHeader.e_shnum; i++)
 	{
 		size_t pos = fileHeader.e_shoff+i*fileHeader.e_shentsize;
+		if (!isInsideFile(pos,sizeof(Elf32_Shdr)))
+			return false;
 
 		Elf32_Shdr sectionHeader;
 		loadSectionHeader(sectionHeader, fileData, pos);
 
+		if (sectionHeader.sh_type != SHT_NOBITS && sectionHeader.sh_type != SHT_NULL
+			&& !isInsideFile(sectionHeader.sh_offset,sectionHeader.sh_size))
+			return false;
+
 		ElfSection* section = new ElfSection(sectionHeader);
 		sections.push_back(section);
 
@@ -511,6 +532,9 @@ bool ElfFile::getSymbol(Elf32_Sym& symbol, size_t index)
 
 	ByteArray &data = symTab->getData();
 	size_t pos = index*sizeof(Elf32_Sym);
+	if (pos+sizeof(Elf32_Sym) > data.size())
+		return false;
+
 	Endianness endianness = getEndianness();
 	symbol.st_name  = data.getDoubleWord(pos + 0x00, endianness);
 	symbol.st_value = data.getDoubleWord(pos + 0x04, endianness);
@@ -526,6 +550,11 @@ const char* ElfFile::getStrTableString(size_t pos)
 {
 	if (strTab == nullptr)
 		return nullptr;
-	
-	return (const char*) &strTab->getData()[pos];
+
+	// the string has to end inside of the table
+	const ByteArray& data = strTab->getData();
+	if (pos >= data.size() || memchr(data.data(pos),0,data.size()-pos) == nullptr)
+		return nullptr;
+
+	return (const char*) data.data(pos);
 }
diff --git a/Core/ELF/ElfFile.h b/Core/ELF/ElfFile.h
index e52e385..c358648 100644
--- a/Core/ELF/ElfFile.h
+++ b/Core/ELF/ElfFile.h
@@ -40,6 +40,7 @@ private:
 	void writeHeader(ByteArray& data, size_t pos, Endianness endianness);
 	void loadProgramHeader(Elf32_Phdr& header, ByteArray& data, size_t pos);
 	void loadSectionHeader(Elf32_Shdr& header, ByteArray& data, size_t pos);
+	bool isInsideFile(size_t pos, size_t size);
 	void loadSectionNames();
 	void determinePartOrder();
 
diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 6207ec2..4e6559f 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -212,9 +212,16 @@ bool ElfRelocator::init(const fs::path& inputName)
 
 			if ((ELF32_ST_BIND(symbol.st_info) == STB_GLOBAL || ELF32_ST_BIND(symbol.st_info) == STB_WEAK) && symbol.st_shndx != 0)
 			{
+				const char* name = elf->getStrTableString(symbol.st_name);
+				if (name == nullptr)
+				{
+					Logger::printError(Logger::Error, "Invalid symbol name in object file %s",entry.name);
+					return false;
+				}
+
 				ElfRelocatorSymbol symEntry;
 				symEntry.type = ELF32_ST_TYPE(symbol.st_info);
-				symEntry.name = elf->getStrTableString(symbol.st_name);
+				symEntry.name = name;
 				symEntry.relativeAddress = symbol.st_value;
 				symEntry.section = symbol.st_shndx;
 				symEntry.size = symbol.st_size;
@@ -365,7 +372,13 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 				}
 
 				Elf32_Sym sym;
-				elf->getSymbol(sym, symNum);
+				if (!elf->getSymbol(sym, symNum))
+				{
+					Logger::queueError(Logger::Error, "Invalid symbol num %06X",symNum);
+					error = true;
+					continue;
+				}
+
 				int symSection = sym.st_shndx;
 				
 				RelocationData relData;
@@ -384,7 +397,15 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 						continue;
 					}
 
-					std::string symName = toLowercase(elf->getStrTableString(sym.st_name));
+					const char* name = elf->getStrTableString(sym.st_name);
+					if (name == nullptr)
+					{
+						Logger::queueError(Logger::Error, "Symbol without a name");
+						error = true;
+						continue;
+					}
+
+					std::string symName = toLowercase(name);
 
 					std::shared_ptr<Label> label = Global.symbolTable.getLabel(Identifier(symName),-1,-1);
 					if (label == nullptr)
-- 
2.43.0


From 100964777de9a01ef6bd4d9fa170a71691a3cbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 33/44] fix: an alignment of 0 in object files means no
 alignment

It was used as divisor, which ended the process.
---
 Core/ELF/ElfRelocator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 4e6559f..965d440 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -318,7 +318,8 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 		size_t index = entry.index;
 		int size = section->getSize();
 
-		while (relocationAddress % section->getAlignment())
+		// an alignment of 0 means the same as 1
+		while (section->getAlignment() != 0 && relocationAddress % section->getAlignment())
 			relocationAddress++;
 
 		if (entry.label != nullptr)
@@ -476,7 +477,7 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 			{
 				int64_t start = relocationAddress;
 
-				while (relocationAddress % sym.relativeAddress)
+				while (sym.relativeAddress != 0 && relocationAddress % sym.relativeAddress)
 					relocationAddress++;
 
 				sym.relocatedAddress = relocationAddress;
-- 
2.43.0


From dc2cadf0f60beeaed3d51a936462eb72ba182e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:11 +0000
Subject: [PATCH 34/44] fix: refuse incomplete PSX objects and libraries

They were read past their end or looped for ever.
---
 Archs/MIPS/PsxRelocator.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/Archs/MIPS/PsxRelocator.cpp b/Archs/MIPS/PsxRelocator.cpp
index e32ea11..d1c7644 100644
--- a/Archs/MIPS/PsxRelocator.cpp
+++ b/Archs/MIPS/PsxRelocator.cpp
@@ -25,7 +25,7 @@ std::vector<PsxLibEntry> loadPsxLibrary(const fs::path& inputName)
 	ByteArray input = ByteArray::fromFile(inputName);
 	std::vector<PsxLibEntry> result;
 
-	if (input.size() == 0)
+	if (input.size() < sizeof(psxObjectFileMagicNum))
 		return result;
 
 	if (memcmp(input.data(),psxObjectFileMagicNum,sizeof(psxObjectFileMagicNum)) == 0)
@@ -43,6 +43,10 @@ std::vector<PsxLibEntry> loadPsxLibrary(const fs::path& inputName)
 	size_t pos = 4;
 	while (pos < input.size())
 	{
+		// the library is incomplete
+		if (input.size()-pos < 20)
+			return {};
+
 		PsxLibEntry entry;
 		
 		for (int i = 0; i < 16 && input[pos+i] != ' '; i++)
@@ -53,11 +57,17 @@ std::vector<PsxLibEntry> loadPsxLibrary(const fs::path& inputName)
 		int size = input.getDoubleWord(pos+16);
 		int skip = 20;
 
-		while (input[pos+skip] != 0)
+		if (size < skip || (size_t) size > input.size()-pos)
+			return {};
+
+		while (skip < size && input[pos+skip] != 0)
 		{
 			skip += 1+input[pos+skip];
 		}
 
+		if (skip >= size)
+			return {};
+
 		skip++;
 
 		entry.data = input.mid(pos+skip,size-skip);
@@ -84,9 +94,14 @@ size_t PsxRelocator::loadString(ByteArray& data, size_t pos, std::string& dest)
 
 bool PsxRelocator::parseObject(ByteArray data, PsxRelocatorFile& dest)
 {
-	if (memcmp(data.data(),psxObjectFileMagicNum,sizeof(psxObjectFileMagicNum)) != 0)
+	size_t dataSize = data.size();
+	if (dataSize < sizeof(psxObjectFileMagicNum) || memcmp(data.data(),psxObjectFileMagicNum,sizeof(psxObjectFileMagicNum)) != 0)
 		return false;
 
+	// every record can be parsed up to the size of its fixed parts and a string,
+	// whether it was complete is checked afterwards
+	data.reserveBytes(0x200);
+
 	size_t pos = 6;
 
 	std::vector<PsxSegment>& segments = dest.segments;
@@ -94,7 +109,7 @@ bool PsxRelocator::parseObject(ByteArray data, PsxRelocatorFile& dest)
 
 	int activeSegment = -1;
 	int lastSegmentPartStart = -1;
-	while (pos < data.size())
+	while (pos < dataSize)
 	{
 		switch (data[pos])
 		{
@@ -142,6 +157,9 @@ bool PsxRelocator::parseObject(ByteArray data, PsxRelocatorFile& dest)
 				int size = data.getWord(pos+1);
 				pos += 3;
 
+				if (activeSegment == -1 || pos > dataSize || (size_t) size > dataSize-pos)
+					return false;
+
 				ByteArray d = data.mid(pos,size);
 				pos += size;
 
@@ -154,6 +172,9 @@ bool PsxRelocator::parseObject(ByteArray data, PsxRelocatorFile& dest)
 				int size = data.getWord(pos+1);
 				pos += 3;
 
+				if (activeSegment == -1)
+					return false;
+
 				ByteArray d;
 				d.reserveBytes(size);
 				segments[activeSegment].data.append(d);
@@ -246,6 +267,9 @@ checkothertype:
 					return false;
 				}
 
+				if (activeSegment == -1)
+					return false;
+
 				segments[activeSegment].relocations.push_back(rel);
 			}
 			break;
@@ -318,6 +342,10 @@ checkothertype:
 		default:
 			return false;
 		}
+
+		// the object is incomplete
+		if (pos > dataSize)
+			return false;
 	}
 
 	return true;
-- 
2.43.0


From 7a20134eb7515c49aef923f007db21752b79381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:49 +0000
Subject: [PATCH 35/44] fix: data running past the end of an ELF segment is
 written to the following one

It was written behind the segment's buffer in memory and missing in the
output.
---
 Archs/MIPS/MipsElfFile.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Archs/MIPS/MipsElfFile.cpp b/Archs/MIPS/MipsElfFile.cpp
index 96986a8..a2b1134 100644
--- a/Archs/MIPS/MipsElfFile.cpp
+++ b/Archs/MIPS/MipsElfFile.cpp
@@ -7,6 +7,8 @@
 #include "Util/CRC.h"
 #include "Util/Util.h"
 
+#include <algorithm>
+
 MipsElfFile::MipsElfFile()
 {
 	platform = Mips.GetVersion();
@@ -182,10 +184,18 @@ bool MipsElfFile::write(void* data, size_t length)
 		ElfSegment* seg = elf.getSegment(segment);
 		ElfSection* sect = seg->getSection(section);
 
+		// data running past the end of the segment belongs to whatever is mapped behind it
 		int64_t pos = sect->getOffset()+sectionOffset;
-		seg->writeToData(pos,data,length);
-		sectionOffset += length;
-		return true;
+		int64_t left = std::max<int64_t>(seg->getPhysSize()-pos,0);
+		size_t count = (size_t) std::min<int64_t>(length,left);
+
+		seg->writeToData(pos,data,count);
+		sectionOffset += count;
+
+		if (count == length)
+			return true;
+
+		return seekVirtual(getVirtualAddress()) && write((byte*) data+count,length-count);
 	}
 
 	if (section != -1)
-- 
2.43.0


From bb9fb3d7c6a92d111280bc942f8844456bd394c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 36/44] fix: forget the names of generated labels between runs

---
 Core/SymbolTable.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Core/SymbolTable.cpp b/Core/SymbolTable.cpp
index b7f682f..52dcf6f 100644
--- a/Core/SymbolTable.cpp
+++ b/Core/SymbolTable.cpp
@@ -40,6 +40,7 @@ void SymbolTable::clear()
 {
 	symbols.clear();
 	labels.clear();
+	generatedLabels.clear();
 	equationsCount = 0;
 	uniqueCount = 0;
 }
-- 
2.43.0


From 30de5e2d3a9c203051106bb7146643483ae4e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:43 +0000
Subject: [PATCH 37/44] fix: refuse MIPS branches to 0x20000 ahead, which were
 encoded as backward branches

---
 Archs/MIPS/CMipsInstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Archs/MIPS/CMipsInstruction.cpp b/Archs/MIPS/CMipsInstruction.cpp
index ac364a4..312c8eb 100644
--- a/Archs/MIPS/CMipsInstruction.cpp
+++ b/Archs/MIPS/CMipsInstruction.cpp
@@ -125,7 +125,7 @@ bool CMipsInstruction::Validate(const ValidateState &state)
 		{
 			int num = (int) (immediateData.primary.value-RamPos-4);
 			
-			if (num > 0x20000 || num < (-0x20000))
+			if (num >= 0x20000 || num < (-0x20000))
 			{
 				Logger::queueError(Logger::Error, "Branch target %08X out of range",immediateData.primary.value);
 				return false;
-- 
2.43.0


From 86aebf7484b1e256ff5bb3473e0f434044ff0253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:43 +0000
Subject: [PATCH 38/44] fix: range of THUMB blx from addresses that are not
 word aligned

---
 Archs/ARM/CThumbInstruction.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Archs/ARM/CThumbInstruction.cpp b/Archs/ARM/CThumbInstruction.cpp
index 5829555..021ccc8 100644
--- a/Archs/ARM/CThumbInstruction.cpp
+++ b/Archs/ARM/CThumbInstruction.cpp
@@ -95,7 +95,11 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 			}
 
 			int num = (int) (Vars.Immediate-RamPos-4);
-			
+
+			// relative to the word aligned program counter
+			if (Opcode.flags & THUMB_EXCHANGE)
+				num += num & 2;
+
 			if (num >= (1 << Vars.ImmediateBitLen) || num < (0-(1 << Vars.ImmediateBitLen)))
 			{
 				Logger::queueError(Logger::Error, "Branch target 0x%X out of range",Vars.OriginalImmediate);
@@ -103,10 +107,6 @@ bool CThumbInstruction::Validate(const ValidateState &state)
 			}
 
 			Vars.Immediate = num >> 1;
-			if (Opcode.flags & THUMB_EXCHANGE)
-			{
-				Vars.Immediate += Vars.Immediate&1;
-			}
 		} else if (Opcode.flags & THUMB_WORD)
 		{
 			if (Vars.Immediate & 3)	// not allowed
-- 
2.43.0


From 859fbf048c068c114d50b3f85bb35fc6302ec7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 39/44] fix: .autoregion took the position before the directive
 as its previous allocation

The position of the first pass is only used to calculate the size, but the
second pass kept it as if the content had been placed there, which left an
unused gap in front of it when it happened to be inside of a region.
---
 Commands/CDirectiveArea.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 85a32cf..21c9d70 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -215,10 +215,9 @@ bool CDirectiveAutoRegion::Validate(const ValidateState &state)
 	if (state.passes < 1)
 	{
 		// Just calculate contentSize.
-		position = g_fileManager->getVirtualAddress();
 		content->applyFileInfo();
 		content->Validate(contentValidation);
-		contentSize = g_fileManager->getVirtualAddress() - position;
+		contentSize = g_fileManager->getVirtualAddress() - resetPosition;
 
 		g_fileManager->seekVirtual(resetPosition);
 		return true;
-- 
2.43.0


From 0ed4706efa17ba44eee68806c258d47f17bdb104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 40/44] fix: gaps between the parts placed in a region were not
 filled

A part keeps the position of an earlier pass when the parts before it shrink.
The free space in front of it is neither used nor was it filled.
---
 Commands/CDirectiveArea.cpp | 40 ++++++++++++++++++++++++++-----------
 Commands/CDirectiveArea.h   |  1 +
 Core/Allocations.cpp        | 13 ++++++++++--
 Core/Allocations.h          | 15 ++++++++------
 4 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/Commands/CDirectiveArea.cpp b/Commands/CDirectiveArea.cpp
index 21c9d70..35727b4 100644
--- a/Commands/CDirectiveArea.cpp
+++ b/Commands/CDirectiveArea.cpp
@@ -110,6 +110,19 @@ bool CDirectiveArea::Validate(const ValidateState &state)
 	return result;
 }
 
+void CDirectiveArea::writeFill(int64_t writeSize) const
+{
+	unsigned char buffer[64];
+	memset(buffer,fillValue,64);
+
+	while (writeSize > 0)
+	{
+		size_t part = std::min<int64_t>(64,writeSize);
+		g_fileManager->write(buffer,part);
+		writeSize -= part;
+	}
+}
+
 void CDirectiveArea::Encode() const
 {
 	if (positionExpression.isLoaded())
@@ -123,20 +136,23 @@ void CDirectiveArea::Encode() const
 
 	if (fillExpression.isLoaded())
 	{
-		int64_t subAreaUsage = getSubAreaUsage();
-		if (subAreaUsage != 0)
-			g_fileManager->advanceMemory(subAreaUsage);
-
-		unsigned char buffer[64];
-		memset(buffer,fillValue,64);
-		
-		size_t writeSize = areaSize-contentSize-subAreaUsage;
-		while (writeSize > 0)
+		int64_t offset = contentSize;
+		if (shared)
 		{
-			size_t part = std::min<size_t>(64,writeSize);
-			g_fileManager->write(buffer,part);
-			writeSize -= part;
+			// parts that kept an earlier position can leave unused gaps before them
+			for (const auto &subArea : Allocations::getSubAreas(fileID, position))
+			{
+				int64_t start = std::max(std::min(subArea.offset, areaSize), offset);
+				int64_t end = std::max(std::min(subArea.offset+subArea.size, areaSize), offset);
+
+				writeFill(start-offset);
+				if (end != start)
+					g_fileManager->advanceMemory(end-start);
+				offset = end;
+			}
 		}
+
+		writeFill(areaSize-offset);
 	}
 	else if (shared)
 		g_fileManager->advanceMemory(areaSize-contentSize);
diff --git a/Commands/CDirectiveArea.h b/Commands/CDirectiveArea.h
index 118f1f9..3afaa01 100644
--- a/Commands/CDirectiveArea.h
+++ b/Commands/CDirectiveArea.h
@@ -16,6 +16,7 @@ public:
 	void setContent(std::unique_ptr<CAssemblerCommand> content) { this->content = std::move(content); }
 private:
 	int64_t getSubAreaUsage() const;
+	void writeFill(int64_t writeSize) const;
 
 	bool shared;
 	int64_t position = 0;
diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index e38f643..55e3166 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -72,13 +72,13 @@ bool Allocations::allocateSubArea(int64_t fileID, int64_t& position, int64_t min
 		if (maxRange != -1 && possiblePosition > maxRange)
 			continue;
 
-		// Can we use the position it had before?  Nudge up size if so.
+		// Can we use the position it had before?  Leave a gap if so.
 		if (keepPositions && position != -1 && position > possiblePosition)
 		{
 			int64_t offset = position - it.first.position;
 			if (it.second.space >= offset + size && offset != actualUsage)
 			{
-				size += offset - actualUsage;
+				actualUsage = offset;
 				keptPositions = true;
 				// Fall through to reuse the emplace.
 				possiblePosition = position;
@@ -130,6 +130,15 @@ int64_t Allocations::getSubAreaUsage(int64_t fileID, int64_t position)
 	return maxExtent - usage;
 }
 
+std::vector<Allocations::SubArea> Allocations::getSubAreas(int64_t fileID, int64_t position)
+{
+	std::vector<SubArea> result;
+	auto range = subAreas.equal_range(Key{ fileID, position });
+	for (auto it = range.first; it != range.second; ++it)
+		result.push_back(it->second);
+	return result;
+}
+
 void Allocations::validateOverlap()
 {
 	// An easy mistake to make is a "subarea" where the parent area fills, and erases the subarea.
diff --git a/Core/Allocations.h b/Core/Allocations.h
index 27b9bec..8996393 100644
--- a/Core/Allocations.h
+++ b/Core/Allocations.h
@@ -2,6 +2,7 @@
 
 #include <cstdint>
 #include <map>
+#include <vector>
 
 struct AllocationStats
 {
@@ -41,6 +42,14 @@ public:
 	static bool allocateSubArea(int64_t fileID, int64_t& position, int64_t minRange, int64_t maxRange, int64_t size);
 	static int64_t getSubAreaUsage(int64_t fileID, int64_t position);
 
+	struct SubArea
+	{
+		int64_t offset;
+		int64_t size;
+	};
+	// In order of their position.
+	static std::vector<SubArea> getSubAreas(int64_t fileID, int64_t position);
+
 	static bool canTrimSpace();
 
 	static void validateOverlap();
@@ -65,12 +74,6 @@ private:
 		bool shared;
 	};
 
-	struct SubArea
-	{
-		int64_t offset;
-		int64_t size;
-	};
-
 	static void collectAreaStats(AllocationStats &stats);
 	static void collectPoolStats(AllocationStats &stats);
 
-- 
2.43.0


From 3b2bc48347ed42ccf279e960f735b5892f83b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 41/44] fix: .autoregion content could keep a position after
 the end of its range

---
 Core/Allocations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Core/Allocations.cpp b/Core/Allocations.cpp
index 55e3166..9012388 100644
--- a/Core/Allocations.cpp
+++ b/Core/Allocations.cpp
@@ -73,7 +73,7 @@ bool Allocations::allocateSubArea(int64_t fileID, int64_t& position, int64_t min
 			continue;
 
 		// Can we use the position it had before?  Leave a gap if so.
-		if (keepPositions && position != -1 && position > possiblePosition)
+		if (keepPositions && position != -1 && position > possiblePosition && (maxRange == -1 || position <= maxRange))
 		{
 			int64_t offset = position - it.first.position;
 			if (it.second.space >= offset + size && offset != actualUsage)
-- 
2.43.0


From 67593064218557e55aa26b003dc5656039483550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:32 +0000
Subject: [PATCH 42/44] fix: references to common symbols in the object that
 defines them were not relocated

They were taken for symbols of a section and got the alignment as address.
---
 Core/ELF/ElfRelocator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Core/ELF/ElfRelocator.cpp b/Core/ELF/ElfRelocator.cpp
index 965d440..ab70a62 100644
--- a/Core/ELF/ElfRelocator.cpp
+++ b/Core/ELF/ElfRelocator.cpp
@@ -388,8 +388,8 @@ bool ElfRelocator::relocateFile(ElfRelocatorFile& file, int64_t& relocationAddre
 				relData.addend = rela.r_addend;
 				relocator->setSymbolAddress(relData,sym.st_value,sym.st_info & 0xF);
 
-				// externs?
-				if (sym.st_shndx == 0)
+				// externs? common symbols are allocated by their name as well
+				if (sym.st_shndx == 0 || sym.st_shndx == SHN_COMMON)
 				{
 					if (sym.st_name == 0)
 					{
-- 
2.43.0


From 4cb6717d05fac60324aad5089512d4266a14ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:42 +0000
Subject: [PATCH 43/44] fix: relocated THUMB calls of ARM code were encoded as
 undefined instructions

The offset of blx is relative to the word aligned address of the instruction.
---
 Archs/ARM/ArmElfRelocator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Archs/ARM/ArmElfRelocator.cpp b/Archs/ARM/ArmElfRelocator.cpp
index 7649b91..013ad42 100644
--- a/Archs/ARM/ArmElfRelocator.cpp
+++ b/Archs/ARM/ArmElfRelocator.cpp
@@ -77,6 +77,8 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 					return false;
 				}
 				
+				// blx is relative to the word aligned address
+				value = (s+a) - (p & ~3);
 				second = 0xE800;
 			}
 
-- 
2.43.0


From a1868563bd1b00b9d3beb78cddbc9ba277ff9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:51 +0000
Subject: [PATCH 44/44] fix: THUMB calls in big endian objects were relocated
 with their halves swapped

---
 Archs/ARM/Arm.cpp             | 2 +-
 Archs/ARM/ArmElfRelocator.cpp | 9 +++++++++
 Archs/ARM/ArmElfRelocator.h   | 3 ++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Archs/ARM/Arm.cpp b/Archs/ARM/Arm.cpp
index 6542aac..88a928c 100644
--- a/Archs/ARM/Arm.cpp
+++ b/Archs/ARM/Arm.cpp
@@ -71,7 +71,7 @@ void CArmArchitecture::NextSection()
 
 std::unique_ptr<IElfRelocator> CArmArchitecture::getElfRelocator()
 {
-	return std::make_unique<ArmElfRelocator>(version != AARCH_GBA);
+	return std::make_unique<ArmElfRelocator>(version != AARCH_GBA, getEndianness());
 }
 
 void CArmArchitecture::addPoolValue(ArmOpcodeCommand* command, int32_t value)
diff --git a/Archs/ARM/ArmElfRelocator.cpp b/Archs/ARM/ArmElfRelocator.cpp
index 013ad42..1de8e34 100644
--- a/Archs/ARM/ArmElfRelocator.cpp
+++ b/Archs/ARM/ArmElfRelocator.cpp
@@ -50,6 +50,12 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 		{
 			unsigned short first = opcode & 0xFFFF;
 			unsigned short second = (opcode >> 16) & 0xFFFF;
+
+			// the first half of the instruction comes first in memory
+			bool bigEndian = endianness == Endianness::Big;
+			if (bigEndian)
+				std::swap(first, second);
+
 			int opField = ((first & 0x7FF) << 11) | (second & 0x7FF);
 			int a = signExtend(opField << 1,23);
 			int value = (s+a) - p;
@@ -91,6 +97,9 @@ bool ArmElfRelocator::relocateOpcode(int type, const RelocationData& data, std::
 			value >>= 1;
 			first |= (value >> 11) & 0x7FF;
 			second |= value & 0x7FF;
+
+			if (bigEndian)
+				std::swap(first, second);
 			opcode = first | (second << 16);
 		}
 		break;
diff --git a/Archs/ARM/ArmElfRelocator.h b/Archs/ARM/ArmElfRelocator.h
index e46abcd..dc1c608 100644
--- a/Archs/ARM/ArmElfRelocator.h
+++ b/Archs/ARM/ArmElfRelocator.h
@@ -15,7 +15,7 @@ enum {
 class ArmElfRelocator: public IElfRelocator
 {
 public:
-	ArmElfRelocator(bool arm9): arm9(arm9) { }
+	ArmElfRelocator(bool arm9, Endianness endianness): arm9(arm9), endianness(endianness) { }
 	int expectedMachine() const override;
 	bool isDummyRelocationType(int type) const override;
 
@@ -25,4 +25,5 @@ public:
 	std::unique_ptr<CAssemblerCommand> generateCtorStub(std::vector<ElfRelocatorCtor>& ctors) override;
 private:
 	bool arm9;
+	Endianness endianness;
 };
-- 
2.43.0

