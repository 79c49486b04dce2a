From 5b31d98fa40a3b624d28481e88959029d9a965e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 001/103] fix: hyper_mat_copy returned NULL for every real mat
 and dereferenced NULL otherwise

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ad50eed..ca93da3 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -393,7 +393,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
  **/
 hyper_mat hyper_mat_copy(hyper_mat mat)
 {
-	if(mat!=NULL)
+	if(mat==NULL)
 		return NULL;
 
 	int samples   = mat->samples;
-- 
2.43.0


From a1f13624077b2d2787b824bbc5963034d592396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 002/103] fix: compute hyper mat sizes in long int so that
 large cubes are not truncated

---
 modules/core/src/c_src/hypermat.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ca93da3..9318ae2 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -180,8 +180,8 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 	long int  memneeded = sizeof(HyperMat);
 	int elem_size = get_elemsize(data_type);
     
-	long int mat_data_size = samples * lines * bands * elem_size;
-	int wave_data_size = bands * sizeof(float);
+	long int mat_data_size = (long int)samples * lines * bands * elem_size;
+	long int wave_data_size = bands * sizeof(float);
 
 	memneeded += mat_data_size + ALLOC_BYTE_ALIGNMENT;
 	memneeded += wave_data_size + ALLOC_BYTE_ALIGNMENT;
@@ -246,7 +246,7 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 		readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
 	
 	unsigned int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
+	long int data_size = (long int)samples * lines * bands;
 
 	void* data = (void *)malloc(data_size * elem_size);
 	hypercv_assert(data != NULL, "malloc fail");
@@ -287,7 +287,7 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	}
 
 	int elem_size = get_elemsize(data_type);
-	long int data_size = samples * lines * bands;
+	long int data_size = (long int)samples * lines * bands;
 
 	void* data = (void *)malloc(data_size * elem_size);
 
@@ -318,7 +318,7 @@ void hmsave(const char* image_path, hyper_mat mat)
 	FILE* image_fp;
 	image_fp = fopen(image_path, "wb");
 	hypercv_assert(image_fp != NULL, "can not open files");
-	fwrite(mat->data, elemsize, samples * lines * bands, image_fp);
+	fwrite(mat->data, elemsize, (long int)samples * lines * bands, image_fp);
 	writehdr(image_path, samples, lines, bands, mat->data_type, mat->interleave,mat->wavelength);
 	fclose(image_fp);
 
@@ -427,7 +427,7 @@ void hyper_mat_copy_to(hyper_mat src_mat, hyper_mat dst_mat)
 	char* src_data = (char*)src_mat->data;
 	char* dst_data = (char*)dst_mat->data;
 
-	memcpy(dst_data, src_data, samples*lines*bands*elemsize);
+	memcpy(dst_data, src_data, (long int)samples*lines*bands*elemsize);
 	hyper_mat_copy_wavelength(src_mat, dst_mat);
 
 	for(int i=0;i<3;i++)
-- 
2.43.0


From ec6fe2e29300f9da35dadb4428d30ba6a48e06c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 003/103] fix: hmread_with_size handed uninitialised
 wavelengths to the new mat and leaked the pixel buffer

---
 modules/core/src/c_src/hypermat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 9318ae2..6e0691d 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -294,9 +294,9 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
 
-	float* wavelength = (float*)malloc(bands*sizeof(float));
+	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, NULL);
 
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
+	free(data);
 
 	return mat;
 }
-- 
2.43.0


From 796e32d7275c5faa612ca6bc2e3230575d5c3db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 004/103] fix: header keys that merely start with 'data'
 overwrote the data type

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 6e0691d..8018581 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -109,7 +109,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 			sscanf(line, "%*[^=]=%d", &bandtemp);
 			*bands = bandtemp;
 		}
-		else if (cmpstr(item, "data") == 1)
+		else if (cmpstr(item, "data type") == 1)
 		{
 			sscanf(line, "%*[^=]=%d", &datatypetemp);
 			*data_type = datatypetemp;
-- 
2.43.0


From b536ac9d9f72ee1a8644b3ca72d8d2b7d6e16902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:17 +0000
Subject: [PATCH 005/103] fix: interleave written without a space after '='
 overflowed the interleave buffer

---
 modules/core/src/c_src/hypermat.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 8018581..a8aafff 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -86,7 +86,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 	char line[MAXLINE];
 	char item[MAXLINE];
 
-	char it[4];
+	char it[4] = "";
 
 	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
 
@@ -116,12 +116,9 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		}
 		else if (cmpstr(item, "interleave") == 1)
 		{
-			sscanf(line, "%*[^=]=%c%c%c%c", &it[0],&it[1],&it[2],&it[3]);
-			for(int i=0;i<4;i++)
-			{
-				if(it[i]!=' ')
-					*interleave++ = it[i];
-			}
+			sscanf(line, "%*[^=]= %3s", it);
+			for(int i=0;i<3;i++)
+				interleave[i] = it[i];
 		}
 		else if (cmpstr(line,"wavelength = {")==1)
 		{	
-- 
2.43.0


From 8eff9f26b80c6d2b68a550e7cf364ba229fdc543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 006/103] fix: wavelength lists overflowed fixed-size buffers,
 were read unterminated, and were lost when on one line or before 'bands'

---
 modules/core/src/c_src/hypermat.c | 61 +++++++++++++++----------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index a8aafff..d75ed09 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -36,29 +36,18 @@ int cmpstr(char temp1[],char temp2[])
 
 // private function purpose to read wavelength from hdr file
 // default wavelength charlength < 12
-static void read_wavelength(char* w, float* wavelength, int bands)
+static void read_wavelength(const char* w, float* wavelength, int bands)
 {
-	char* tmp = (char*)malloc(MAXWAVECHAR*sizeof(char));
-	for(int i=0;i<MAXWAVECHAR;i++)
-		tmp[i]=' ';
-	int t = 0;
-	int n = 0;
-	for (int i=0;i<strlen(w);i++)
+	for (int n=0; n<bands; n++)
 	{
-		if(w[i]!=','&&w[i]!='}')
-			tmp[t++] = w[i];
-		else
-		{
-			wavelength[n++] = atof(tmp);
-			t=0;
-			for(int j=0;j<MAXWAVECHAR;j++)
-				tmp[j]=' ';
-		}
-		if(w[i]=='}'||n==bands)
+		const char* end = strpbrk(w, ",}");
+		if(end == NULL)
 			break;
+		wavelength[n] = atof(w);
+		if(*end == '}')
+			break;
+		w = end + 1;
 	}
-	free(tmp);
-	tmp=NULL;
 }
 
 
@@ -89,6 +78,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 	char it[4] = "";
 
 	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
+	char* w = NULL;
 
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
 	{   
@@ -122,23 +112,30 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		}
 		else if (cmpstr(line,"wavelength = {")==1)
 		{	
-			char* w = (char*)malloc(MAXWAVECHAR * bandtemp*sizeof(char));
-			char* t_w = w;
-
-			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0)
+			long int w_len = 0;
+			char* part = strchr(line, '{');
+			part = (part == NULL) ? line + strlen(line) : part + 1;
+			do
 			{
-				for (int i = 0; i < strlen(line); i++)
-				{
-					if (line[i] != '\n')
-						*t_w++ = line[i];
-				}
+				long int part_len = strlen(part);
+				w = (char*)realloc(w, w_len + part_len + 1);
+				hypercv_assert(w != NULL, "malloc fail");
+				memcpy(w + w_len, part, part_len + 1);
+				w_len += part_len;
+				part = line;
 			}
-			float* wave = (float*)malloc((bandtemp)*sizeof(float));
-			read_wavelength(w, wave, bandtemp);
-			*wavelength = wave;
-			free(w); w = NULL;
+			while (strchr(w, '}') == NULL && fgets(line, MAXLINE, hdr_fp) != 0);
 		}
 	}
+
+	if (w != NULL && bandtemp > 0)
+	{
+		float* wave = (float*)calloc(bandtemp, sizeof(float));
+		hypercv_assert(wave != NULL, "malloc fail");
+		read_wavelength(w, wave, bandtemp);
+		*wavelength = wave;
+	}
+	free(w);
 }
 
 /**
-- 
2.43.0


From e499a9b67e890e554557304cbf5de402f1056337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 007/103] fix: hmread_with_hdr used uninitialised dimensions
 for incomplete headers and leaked buffers and file handles

---
 modules/core/src/c_src/hypermat.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index d75ed09..3a4f198 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -221,8 +221,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	hypercv_assert(image_path != NULL, "image path or hdr path can not be NULL");
 	hypercv_assert(hdr_path != NULL, "image path or hdr path can not be NULL");
 
-	int samples, lines, bands, data_type;
-	char* interleave = (char*)malloc(3*sizeof(char));
+	int samples = 0, lines = 0, bands = 0, data_type = 0;
+	char interleave[4] = "";
 	float* wavelength = NULL;
 
 	FILE* image_fp = NULL;
@@ -234,11 +234,17 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	if (image_fp == NULL || hdr_fp == NULL)
 	{
 		printf("can not open file\n");
+		if (image_fp != NULL)
+			fclose(image_fp);
+		if (hdr_fp != NULL)
+			fclose(hdr_fp);
 		return 0;
 	}
 	else
 		readhdr(hdr_fp, &samples, &lines,&bands, &data_type, interleave, &wavelength);
 	
+	hypercv_assert(samples > 0 && lines > 0 && bands > 0 && get_elemsize(data_type) > 0, "hdr file is incomplete");
+
 	unsigned int elem_size = get_elemsize(data_type);
 	long int data_size = (long int)samples * lines * bands;
 
@@ -252,7 +258,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	
 	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
 
-	free(interleave);
+	free(data);
+	free(wavelength);
 	
 	return mat;
 }
-- 
2.43.0


From 8ffeb26fd66cff081789360dd8243a2436101a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 008/103] fix: creating a hyper mat with an unsupported data
 type computed a negative size

---
 modules/core/src/c_src/hypermat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 3a4f198..6c4941c 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -173,6 +173,7 @@ hyper_mat create_hyper_mat_with_data(const int samples, const int lines, const i
 
 	long int  memneeded = sizeof(HyperMat);
 	int elem_size = get_elemsize(data_type);
+	hypercv_assert(elem_size > 0, "the data type of hyper mat is not supported.");
     
 	long int mat_data_size = (long int)samples * lines * bands * elem_size;
 	long int wave_data_size = bands * sizeof(float);
-- 
2.43.0


From 68f965526e4a72e43a9b6a7e7598e736fa6a19d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 009/103] fix: writehdr leaked its path and interleave buffers

---
 modules/core/src/c_src/hypermat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 6c4941c..3a66243 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -385,6 +385,8 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 		fputs("wavelength = unknown \n",fp);
 	}
 	fclose(fp);
+	free(it);
+	free(hdr_path);
 }
 
 
-- 
2.43.0


From 2008aabc75ef3485f6f315a5af4210b638f205f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 010/103] fix: hmread_with_size computed a negative size for
 unsupported data types

---
 modules/core/src/c_src/hypermat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 3a66243..96c9c0a 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -289,6 +289,7 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	}
 
 	int elem_size = get_elemsize(data_type);
+	hypercv_assert(elem_size > 0, "the data type of hyper mat is not supported.");
 	long int data_size = (long int)samples * lines * bands;
 
 	void* data = (void *)malloc(data_size * elem_size);
-- 
2.43.0


From 128e6fd36bb7620ce712c300570ee1d08027dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 011/103] fix: create_simple_mat left all channels but the
 first uninitialised and truncated large sizes

---
 modules/core/src/c_src/simplemat.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 869b43b..497a35f 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -29,12 +29,13 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 
 	simple_mat mat;
 
-	int memneeded = sizeof(SIMPLE_MAT);
+	long int memneeded = sizeof(SIMPLE_MAT);
 	int elem_size = get_elemsize(data_type);
+	hypercv_assert(elem_size > 0 && channels > 0, "the data type or channels of mat is not supported ");
+	long int data_size = (long int)rows * cols * elem_size * channels; 
 
 	if (data == NULL)
 	{
-		int data_size = rows * cols * elem_size * channels; 
 		memneeded += data_size + ALLOC_BYTE_ALIGNMENT;
 	}
 
@@ -45,7 +46,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	{
 		uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
 		BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
-		memset((void*)address, 0, rows * cols * elem_size);
+		memset((void*)address, 0, data_size);
 		mat -> data = (void*)address;
 	}
 	else
-- 
2.43.0


From 64acaaaa9b4d549b48e13492543906d3ad5a3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 012/103] fix: delete_simple_mat freed an interior pointer when
 the allocation ended up 48 bytes past a 64-byte boundary

---
 modules/core/src/c_src/simplemat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 497a35f..79b8f50 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -495,7 +495,9 @@ void delete_simple_mat(simple_mat mat)
 	if(mat == NULL)
 		return;
 
-	if((uintptr_t)mat + ALLOC_BYTE_ALIGNMENT >= (uintptr_t)mat->data)
+	uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
+	BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
+	if(address == (uintptr_t)mat->data)
 	{
 		free(mat);
 		mat = NULL;	
-- 
2.43.0


From 55ecbe5ad4da422124a151dddf75bbc0c910bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 013/103] fix: delete_simple_mat took caller data lying right
 behind the header for inline data and never freed it

---
 modules/core/src/c_src/simplemat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 79b8f50..98db15a 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -29,14 +29,14 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 
 	simple_mat mat;
 
-	long int memneeded = sizeof(SIMPLE_MAT);
+	long int memneeded = sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT;
 	int elem_size = get_elemsize(data_type);
 	hypercv_assert(elem_size > 0 && channels > 0, "the data type or channels of mat is not supported ");
 	long int data_size = (long int)rows * cols * elem_size * channels; 
 
 	if (data == NULL)
 	{
-		memneeded += data_size + ALLOC_BYTE_ALIGNMENT;
+		memneeded += data_size;
 	}
 
 	mat = (simple_mat)malloc(sizeof(char) * memneeded);
-- 
2.43.0


From ce4408bf778e4bec1a031377ef88bc207b6ca8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 014/103] fix: smread ignored the channel count when sizing and
 reading the file

---
 modules/core/src/c_src/simplemat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 98db15a..cd2c277 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -76,7 +76,8 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 	hypercv_assert(image_fp != NULL, "can not open files");
 
 	int elem_size = get_elemsize(data_type);
-	int data_size = rows * cols;
+	hypercv_assert(elem_size > 0 && channels > 0, "the data type or channels of mat is not supported ");
+	long int data_size = (long int)rows * cols * channels;
 	void* data = (void *)malloc(data_size * elem_size);
 
 	fread(data, elem_size, data_size, image_fp);
-- 
2.43.0


From 8a04e628824710cc8e74cb564e728b01f6f5fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 015/103] fix: simple_mat_copy truncated the copied size for
 large images

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index cd2c277..ef6169e 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -107,7 +107,7 @@ simple_mat simple_mat_copy(simple_mat mat)
 	char * src_data = (char*)mat->data;
 	char * dst_data = (char*)dst->data;
 	
-	memcpy(dst_data, src_data, rows*cols*elemsize*channels);
+	memcpy(dst_data, src_data, (long int)rows*cols*elemsize*channels);
 	
 	return dst;
 }
-- 
2.43.0


From f064da1055a6c102d268d044c89842564a08399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 016/103] fix: smread_bmp left the middle row of odd-height
 images in BGR order and read 8 bit images out of bounds

---
 modules/core/src/c_src/simplemat.c | 46 ++++++++++++++----------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index ef6169e..1aae2c2 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -135,41 +135,37 @@ simple_mat smread_bmp(const char *bmpName)
 	int biBitCount = head.biBitCount;
     int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;
 	
+	hypercv_assert(biBitCount == 24 || biBitCount == 8, "only 24 bit and 8 bit bmp images can be read");
+
+	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,channels);
+	unsigned char* res_data = (unsigned char*)res->data;
+
+	RGBQUAD colorTable[256];
+	memset(colorTable, 0, sizeof(colorTable));
 	if (biBitCount == 8)
-	{
-		RGBQUAD *pColorTable = (RGBQUAD *)malloc(sizeof(RGBQUAD) * 1024);
-		fread(pColorTable, sizeof(RGBQUAD), 256, fp);
-	}
+		fread(colorTable, sizeof(RGBQUAD), 256, fp);
 	
 	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
-	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
+	fread(pBmpBuf, 1, (long int)lineByte * bmpHeight, fp);
 	fclose(fp);
 
-	for(int i=0;i<bmpHeight/2;i++)
+	for(int i=0;i<bmpHeight;i++)
 	{
+		unsigned char* pres = res_data + (long int)i*bmpWidth*channels;
+		unsigned char* pbmp = pBmpBuf + (long int)(bmpHeight-i-1)*lineByte;
 		for(int j=0;j<bmpWidth;j++)
 		{
-			for(int k=0;k<channels;k++)
+			if (biBitCount == 8)
 			{
-				int tmp = pBmpBuf[i*lineByte + j*channels + k];
-				pBmpBuf[i*lineByte + j*channels + k] = pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k];
-				pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k] = tmp;
+				pres[j*channels]     = colorTable[pbmp[j]].rgbRed;
+				pres[j*channels + 1] = colorTable[pbmp[j]].rgbGreen;
+				pres[j*channels + 2] = colorTable[pbmp[j]].rgbBlue;
+			}
+			else
+			{
+				for(int k=0;k<channels;k++)
+					pres[j*channels + k] = pbmp[j*channels + 2-k];
 			}
-		}
-	}
-	
-	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
-	unsigned char* res_data = (unsigned char*)res->data;
-
-	if(lineByte == bmpWidth * biBitCount / 8)
-		memcpy(res_data, pBmpBuf, lineByte*bmpHeight);
-	else
-	{
-		for(int i=0; i<bmpHeight; i++)
-		{
-			unsigned char* pres = res_data + i*bmpWidth*channels;
-			unsigned char* pbmp = pBmpBuf + i*lineByte;
-			memcpy(pres, pbmp, bmpWidth*channels);
 		}
 	}
 
-- 
2.43.0


From 576e6abed640d17c9a51f235f590c9d13775c204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 017/103] fix: smwrite_bmp flipped the caller's image in place,
 left the middle row of odd-height images unswapped and leaked

---
 modules/core/src/c_src/simplemat.c | 32 +++++++++---------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 1aae2c2..cf075cf 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -183,6 +183,7 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 	hypercv_assert(bmpName != NULL, "write bmp image path can not be NULL");
 	hypercv_assert(src_mat != NULL,"save mat can not be null");
 	hypercv_assert(src_mat->data_type == 1,"save mat only 0-255");
+	hypercv_assert(src_mat->channels == 1 || src_mat->channels == 3,"save mat only gray or rgb");
 
 	FILE *fp = fopen(bmpName, "wb");
 	hypercv_assert(fp != NULL,"save file can not open");
@@ -233,36 +234,21 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 
 	fwrite(&infoHead, sizeof(BmpInfoHeader), 1, fp);
 
-	for(int i=0; i<height/2; i++)
+	unsigned char* row = (unsigned char*)calloc(lineByte, 1);
+	hypercv_assert(row != NULL, "failed to allocate memory");
+	for(int i=height-1; i>=0; i--)
 	{
 		for(int j=0; j<width; j++)
 		{
 			for(int k=0; k<channels; k++)
-			{
-				int tempbuf = imgBuf[i*width*channels + j*channels + k];
-				imgBuf[i*width*channels + j*channels + k] = imgBuf[(height-i-1)*width*channels + j*channels + 2-k];
-				imgBuf[(height-i-1)*width*channels + j*channels + 2-k] = tempbuf;
-			}
-
+				row[j*channels + k] = imgBuf[(long int)i*width*channels + j*channels + 2-k];
 		}
+		fwrite(row, lineByte, 1, fp);
 	}
+	free(row);
 
-	if(lineByte > width*biBitCount/8)
-	{
-		unsigned char* tmp = (unsigned char*)malloc(height*lineByte);
-		unsigned char* data = tmp ;
-		for(int i=0; i<height; i++)
-		{
-			memcpy(data, imgBuf, width*3);
-			imgBuf += width*3;
-			data += lineByte;
-		}
-		fwrite(tmp, height*lineByte, 1, fp);
-		free(tmp);
-	}
-	else 
-		fwrite(imgBuf, height*lineByte, 1, fp);
-
+	if(mat != src_mat)
+		delete_simple_mat(mat);
 	fclose(fp);
 }
 
-- 
2.43.0


From e7d21bf07b8645bc310b76b7f855995308aa3b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 018/103] fix: grayscale statistics (and entropy) always
 aborted because the pointer size was compared with 256

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index cf075cf..9552413 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -360,7 +360,7 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 {
 	hypercv_assert(mat                  != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat-> data_type      == 1,    "only use in unsigned char image");
-	hypercv_assert(sizeof(gray_statist) == 256,  "gray array error");
+	hypercv_assert(gray_statist         != NULL, "gray array error");
 
 	int rows     = mat->rows;
 	int cols     = mat->cols;
-- 
2.43.0


From 1c0bd4b0b6c2ac9bfbdb7239f93af0ac1da2b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 019/103] fix: contrast ratio, grayscale statistics and entropy
 leaked the temporary gray image

---
 modules/core/src/c_src/simplemat.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 9552413..dfec98b 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -380,6 +380,9 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 
 	for(int i=0; i<rows*cols; i++)
 		gray_statist[data[i]]++;
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 }
 
 
@@ -423,6 +426,10 @@ float simple_mat_contrast_ratio(simple_mat mat)
 	}
 
 	res = res/(4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4);
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
+
 	return res;
 }
 
@@ -439,17 +446,6 @@ float simple_mat_entropy(simple_mat mat)
 
 	int rows = mat->rows;
 	int cols = mat->cols;
-	int channels = mat->channels;
-
-	simple_mat tmp ;
-
-	if(channels != 1)
-		tmp = sm_rgb2gray(mat,0);
-	else 
-		tmp = mat;
-
-	unsigned char* data = (unsigned char*)tmp->data;
-
 	float res =0.0;
 
 	int gray_statist[256]={0};
-- 
2.43.0


From 4403e0de50bb1d4fc6983cd41e163e8c200d6478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 020/103] fix: image mean and variance treated signed pixels as
 unsigned and ignored double and unsigned int images

---
 modules/core/src/c_src/simplemat.c | 40 ++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index dfec98b..826e967 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -276,6 +276,12 @@ float simple_mat_mean(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*) mat->data;
@@ -284,6 +290,13 @@ float simple_mat_mean(simple_mat mat)
 				break;
 			}
 		case 3:
+			{
+				int* data = (int*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
+		case 13:
 			{
 				unsigned int* data = (unsigned int*) mat->data;
 				for(int i=0; i<rows*cols; i++)
@@ -297,6 +310,13 @@ float simple_mat_mean(simple_mat mat)
 					res += data[i];
 				break;
 			}
+		case 5:
+			{
+				double* data = (double*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
 	}
 	return res/rows/cols;
 }
@@ -326,6 +346,12 @@ float simple_mat_variance(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*)mat->data;
@@ -334,6 +360,13 @@ float simple_mat_variance(simple_mat mat)
 				break;
 			}
 		case 3:
+			{
+				int* data = (int*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
+		case 13:
 			{
 				unsigned int* data = (unsigned int*)mat->data;
 				for(int i=0; i<rows*cols; i++)
@@ -347,6 +380,13 @@ float simple_mat_variance(simple_mat mat)
 					res += pow(mean-data[i], 2);
 				break;
 			}
+		case 5:
+			{
+				double* data = (double*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += pow(mean-data[i], 2);
+				break;
+			}
 	}
 	return res/rows/cols;
 }
-- 
2.43.0


From 7f69930beb3b2d18074c2894e2e0c2830ed9689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 021/103] fix: HyMat members were used uninitialised and the
 default constructor always aborted

---
 modules/core/include/cxx_include/hypermat.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index d940d16..066ac2e 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -27,19 +27,19 @@ namespace hypercv
 			/* 
 			 * HYPER_MAT 
 			 * */
-			int          lines;
-			int          samples;
-			int          bands;
-			int          dataType;
-			int          format;
+			int          lines = 0;
+			int          samples = 0;
+			int          bands = 0;
+			int          dataType = 0;
+			int          format = 0;
 			//todo 修改所有format 改成 int format， HYPERCV_BIL HYPERCV_BIP HYPERCV_BSQ 
 
 			char         interleave[3];
-			void*        data;
-			float*       wavelength;
+			void*        data = NULL;
+			float*       wavelength = NULL;
 
-			int          elemSize;
-			long int     dataSize;
+			int          elemSize = 0;
+			long int     dataSize = 0;
 
 			HyMat();
 
@@ -82,7 +82,6 @@ namespace hypercv
 
 	inline HyMat::HyMat()
 	{
-		create(0, 0, 0, HYPERCV_UCHAR, HYPERCV_BSQ);
 	}
 
 	inline HyMat::HyMat(int _samples, int _lines, int _bands, int _dataType, int _format)
-- 
2.43.0


From 3ac7ab70d49689cc51f10f7d88b04ff62c97c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 022/103] fix: HyMat create and open validated the members
 instead of their arguments

---
 modules/core/include/cxx_include/hypermat.hpp | 46 +++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 066ac2e..8decd11 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -120,17 +120,17 @@ namespace hypercv
 	inline void HyMat::create(int _samples, int _lines, int _bands, int _dataType, int _format, void* _data, float* _wavelength)
 	{
 
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if(data)
 			release();
@@ -326,17 +326,17 @@ namespace hypercv
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
 	{
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if (empty() == 0)
 			release();
@@ -359,7 +359,7 @@ namespace hypercv
 
 	inline void HyMat::convertTo(int _format)
 	{
-		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
+		hypercv_assert(_format == HYPERCV_BIL || _format == HYPERCV_BIP || _format == HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 		
 		if(_format == format)
 			return;
-- 
2.43.0


From dd96ea0c6134060efd2c4479a510f03d52b821ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 023/103] fix: HyMat data size was truncated to int

---
 modules/core/include/cxx_include/hypermat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 8decd11..a656d5e 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -161,7 +161,7 @@ namespace hypercv
 		}
 
 		elemSize  = get_elemsize(dataType);
-		dataSize  = samples * lines * bands * elemSize;
+		dataSize  = (long int)samples * lines * bands * elemSize;
 
 		if(_data)
 			data = _data;
@@ -255,7 +255,7 @@ namespace hypercv
 			return;
 			printf("can not open files\n");
 		}
-		fwrite(data, elemSize, samples * lines * bands, _fp);
+		fwrite(data, elemSize, (long int)samples * lines * bands, _fp);
 		this->writeHdr(filePath);
 		fclose(_fp);
 
-- 
2.43.0


From 05a59402558e7f36e6e7a198d7046e90fa958918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 024/103] fix: HyMat open read elemSize times too many bytes
 into the image buffer

---
 modules/core/include/cxx_include/hypermat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index a656d5e..71b33a5 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -320,7 +320,7 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		fread(data, 1, dataSize, _fp);
 		fclose(_fp);
 	}
 
@@ -352,7 +352,7 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		fread(data, 1, dataSize, _fp);
 		fclose(_fp);
 
 	}
-- 
2.43.0


From bbb6b8829527e31a8a78a995bd2643fe490f0f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 025/103] fix: HyMat header was written next to the wrong path

---
 modules/core/include/cxx_include/hypermat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 71b33a5..3ecd9ed 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -264,7 +264,7 @@ namespace hypercv
 	inline void HyMat::writeHdr(const char* filePath)
 	{
 		std::string path(filePath);
-		path = path.substr(0, path.find('.')) + "hdr";
+		path += ".hdr";
 
 		FILE *fp;
 		fp = fopen(path.c_str(), "w");
-- 
2.43.0


From bfe6e38c4f32219da2c24548594ed976ccf9c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 026/103] fix: readHdr overflowed its key buffer on long lines
 and took other 'data ...' keys for the data type

---
 modules/core/src/cxx_src/hypermat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index 7b468a5..df936b8 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -62,8 +62,8 @@ namespace hypercv
 		while (getline(file,lineBuff))
 		{  
 			const char* line = lineBuff.c_str();
-			char item[20];
-			sscanf(line, "%[^=]", item);
+			char item[20] = "";
+			sscanf(line, "%19[^=]", item);
 
 			if (cmpstr(item, (char*)"samples") == 1)
 				sscanf(line, "%*[^=]=%d",&samples);
@@ -74,7 +74,7 @@ namespace hypercv
 			else if (cmpstr(item, (char*)"bands") == 1)
 				sscanf(line, "%*[^=]=%d", &bands);
 
-			else if (cmpstr(item, (char*)"data") == 1)
+			else if (cmpstr(item, (char*)"data type") == 1)
 				sscanf(line, "%*[^=]=%d", &dataType);
 
 			else if (lineBuff.find("interleave")!=lineBuff.npos)
-- 
2.43.0


From c69b3e375aa056054d67633451de2f53fefc13ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 027/103] fix: readHdr repeated the first wavelength for comma
 separated lists and ran past the last one

---
 modules/core/src/cxx_src/hypermat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/core/src/cxx_src/hypermat.cpp b/modules/core/src/cxx_src/hypermat.cpp
index df936b8..9bd172b 100644
--- a/modules/core/src/cxx_src/hypermat.cpp
+++ b/modules/core/src/cxx_src/hypermat.cpp
@@ -99,12 +99,12 @@ namespace hypercv
 					waveBuff += lineBuff.substr(startIndex,endIndex);
 				}
 				while(lineBuff.find('}')==lineBuff.npos&&getline(file,lineBuff));
+				for(size_t i=0;i<waveBuff.size();i++)
+					if(waveBuff[i] == ',')
+						waveBuff[i] = ' ';
 				ss<<waveBuff;
-				for(int i=0;i<bands;i++)
-				{
-					ss>>s;
+				for(int i=0;wavelength!=NULL&&i<bands&&ss>>s;i++)
 					wavelength[i] = atof(s.c_str());
-				}
 
 			}
 		}
-- 
2.43.0


From f1672aac7d1b8ba0d59819b557109598848f2e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 028/103] fix: range extraction read outside the cube when the
 range exceeded its size

---
 modules/core/include/cxx_include/hypermat.hpp | 1 +
 modules/process/src/c_src/imageprocess.c      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 3ecd9ed..61055d1 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -474,6 +474,7 @@ namespace hypercv
 	inline HyMat HyMat::range(int startRow, int startCol, int startBand, int endRow, int endCol, int endBand)
 	{
 		hypercv_assert(startCol<endCol && startRow<endRow && startBand<endBand, "start col & start row & start band must < end col & end row & end band");
+		hypercv_assert(startCol>=0 && startRow>=0 && startBand>=0 && endCol<=samples && endRow<=lines && endBand<=bands, "range must lie inside the mat");
 
 		int newSamples = endCol - startCol;
 		int newLines = endRow - startRow;
diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5aa544a..d6f729d 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -388,6 +388,7 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, int start_band, int end_row, int end_col, int end_band)
 {
 	hypercv_assert(start_col<end_col && start_row<end_row && start_band<end_band, "start col & start row & start band must < end col & end row & end band");
+	hypercv_assert(start_col>=0 && start_row>=0 && start_band>=0 && end_col<=src_mat->samples && end_row<=src_mat->lines && end_band<=src_mat->bands, "range must lie inside the mat");
 
 	int samples = end_col - start_col;
 	int lines = end_row - start_row;
-- 
2.43.0


From ad9e756703822f5e0492a89db519be80c156224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 029/103] fix: HyMat open read the header wavelengths through a
 NULL pointer and could use uninitialised sizes

---
 modules/core/include/cxx_include/hypermat.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 61055d1..6bf0fae 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -301,15 +301,11 @@ namespace hypercv
 		if (empty() == 0)
 			release();
 
-		int _samples, _lines, _bands, _dataType;
-		readHdr(hdrPath, _samples, _lines, _bands, _dataType, format, wavelength);
+		int _samples = 0, _lines = 0, _bands = 0, _dataType = 0, _format = HYPERCV_BSQ;
+		readHdr(hdrPath, _samples, _lines, _bands, _dataType, _format, NULL);
 
-		samples = _samples;
-		lines = _lines;
-		bands = _bands;
-		dataType = _dataType;
-
-		create();
+		create(_samples, _lines, _bands, _dataType, _format);
+		readHdr(hdrPath, _samples, _lines, _bands, _dataType, _format, wavelength);
 
 		FILE* _fp = NULL;
 		_fp = fopen(imagePath, "r");
-- 
2.43.0


From 17c344ad0a61f0d8eb4574971589fb12f2b9cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 030/103] fix: constant border lookup returned index 1 for
 images one pixel wide

---
 modules/core/include/c_include/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/include/c_include/type.h b/modules/core/include/c_include/type.h
index 6af5017..2e780f6 100644
--- a/modules/core/include/c_include/type.h
+++ b/modules/core/include/c_include/type.h
@@ -181,7 +181,7 @@ static inline int hypercv_border_Interpolate(int p, int len, unsigned int border
 			}
 		case BORDER_CONSTANT:
 			{
-				index = 1;
+				index = len > 1 ? 1 : 0;
 				break;
 			}
 	}
-- 
2.43.0


From 244bdc74f5c207f9e24bc81c0d35db3b7cb2346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 031/103] fix: vector_init did not compile and freed only empty
 vectors

---
 modules/core/include/c_include/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 00970b2..5368492 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -164,9 +164,9 @@ vector_set_size((vec), vector_size(vec) + 1); \
 
 #define vector_init(vec,value,size) \
 	do{\
-		if(!vec)                                      \
+		if(vec)                                       \
 		{                                             \
-			vector_free(vec)                          \
+			vector_free(vec);                         \
 		}                                             \
 		size_t __temp_iter = 0;                       \
 		if(size)                                      \
-- 
2.43.0


From 9ab2d55a87f7bc2cc1232f0121e2ed133bc6c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 032/103] fix: popping from an empty vector wrapped its size
 around

---
 modules/core/include/c_include/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/c_include/vector.h b/modules/core/include/c_include/vector.h
index 5368492..a09fd85 100644
--- a/modules/core/include/c_include/vector.h
+++ b/modules/core/include/c_include/vector.h
@@ -80,7 +80,8 @@
  */
 #define vector_pop_back(vec) \
 	do {                                              \
-		vector_set_size((vec), vector_size(vec) - 1); \
+		if(vector_size(vec) > 0)                      \
+			vector_set_size((vec), vector_size(vec) - 1); \
 	} while(0)
 
 /**
-- 
2.43.0


From 58cb199ba249934a7b62509227e0b02ede63925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 033/103] fix: structuring elements created by the library
 leaked their data when deleted

---
 modules/core/src/c_src/struct_2D.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/core/src/c_src/struct_2D.c b/modules/core/src/c_src/struct_2D.c
index 416b0f6..9d81f1d 100644
--- a/modules/core/src/c_src/struct_2D.c
+++ b/modules/core/src/c_src/struct_2D.c
@@ -15,12 +15,19 @@ S_2D create_2D_struct(int width, int height)
 {
 	hypercv_assert(width>=1 && height>=1, "2D struct's width or height must bigger than 0");
 	
-	unsigned char * data = (unsigned char*)malloc(width * height * sizeof(unsigned char));
-	
+	S_2D s = (S_2D)malloc(sizeof(STRUCT_2D) + (long int)width * height * sizeof(unsigned char));
+	hypercv_assert(s != NULL ,"fail to build 2d_struct");
+
+	unsigned char * data = (unsigned char*)(s + 1);
+
 	for(int i=0; i<width*height; i++)
 		data[i] = 1;
-	
-	return create_2D_struct_with_data(width, height, data);
+
+	s->data = data;
+	s->width = width;
+	s->height = height;
+
+	return s;
 	
 }
 
-- 
2.43.0


From 663ee859824805ebe480d7d85e1464ec41584e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 034/103] fix: flips scrambled images whose elements are wider
 than one byte

---
 modules/process/src/c_src/GeometricTransformation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 5ec5845..2a1db6c 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -12,8 +12,8 @@ void simple_mat_flip_horizontal(simple_mat src_mat,simple_mat dst_mat)
 	
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
-	int channels = src_mat->channels;
-	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	int channels = src_mat->channels * get_elemsize(src_mat->data_type); // bytes per pixel
+	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && src_mat->channels == dst_mat->channels && src_mat->data_type == dst_mat->data_type,"src_mat size != dst_mat size");
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
@@ -31,8 +31,8 @@ void simple_mat_flip_vertical(simple_mat src_mat,simple_mat dst_mat)
 	
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
-	int channels = src_mat->channels;
-	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && channels == dst_mat->channels,"src_mat size != dst_mat size");
+	int channels = src_mat->channels * get_elemsize(src_mat->data_type); // bytes per pixel
+	hypercv_assert(rows == dst_mat->rows && cols == dst_mat->cols && src_mat->channels == dst_mat->channels && src_mat->data_type == dst_mat->data_type,"src_mat size != dst_mat size");
 
 	unsigned char* src_data = (unsigned char*)src_mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
-- 
2.43.0


From 6312b583ebd71fea08be9141e77f0b2c7e0e8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 035/103] fix: hyper_mat_rotate wrote outside the rotated cube

---
 modules/process/src/c_src/GeometricTransformation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 2a1db6c..271aeea 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -195,6 +195,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 		{
             int x = i * c + j * s + di;
 			int y = j * c - i * s + dj;
+			if(x < 0 || x >= height || y < 0 || y >= width)
+				continue;
 			int dstOft = (x * width + y) * mat->bands * elem_size;
 			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
-- 
2.43.0


From c78deb355bb16f8d0b87bfbc2405cc0f2a982543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 036/103] fix: image pyramids leaked their temporary images

---
 modules/process/src/c_src/GeometricTransformation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 271aeea..a15cd6d 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -100,6 +100,8 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 			for(int m=0;m<channels;m++)
 			  dst_data[i*dst_cols*channels+j*channels+m] = tmp_data[2*i*src->cols*channels+2*j*channels+m];
 	
+
+	delete_simple_mat(tmp);
 }
 
 void hypercv_pyramid_up(simple_mat src, simple_mat dst)
@@ -148,6 +150,9 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 		kernel_data[i]=kernel_data[i]*2;
 
 	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,1);
+
+	delete_simple_mat(kernel);
+	delete_simple_mat(tmp);
 }
 
 
-- 
2.43.0


From 4ba66f88cd5567d06c3bb8267818ab7116bd8a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 037/103] fix: relative radiometric correction indexed the
 coefficients with the wrong row length

---
 modules/process/src/c_src/RadiometricCalibration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index f544fd0..7cfda62 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -24,7 +24,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 		{
 			for (int k = 0; k < bands; k++)
 			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*bands + j];
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
 			}
 		}
 	}
-- 
2.43.0


From 8be99ed1fe6ac6f2b2b66ab7fd61ddc3d02caf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 038/103] fix: radiometric correction dropped the wavelengths

---
 modules/process/src/c_src/RadiometricCalibration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index 7cfda62..97f8869 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -28,6 +28,7 @@ hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 			}
 		}
 	}
+	hyper_mat_copy_wavelength(bip_mat, res);
 	return res;
 }
 
@@ -59,6 +60,7 @@ hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
 			}
 		}
 	}
+	hyper_mat_copy_wavelength(bip_mat, res);
 	return res;
 }
 
-- 
2.43.0


From b4733e6c277250d99eaafa8104c25a1e494c483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 039/103] fix: erosion and dilation used the row count as row
 stride, scrambling and overrunning non-square images

---
 modules/process/src/c_src/morphology.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index c533ba3..0a96363 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -47,7 +47,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]!=0)
+			if(src[i*cols+j]!=0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -55,18 +55,18 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 0;
+					dst[i*cols+j] = 0;
 			}
 			else
-				dst[i*rows+j] = 0;
+				dst[i*cols+j] = 0;
 		}
 	}
 }
@@ -111,7 +111,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]==0)
+			if(src[i*cols+j]==0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -119,18 +119,18 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 1;
+					dst[i*cols+j] = 1;
 			}
 			else
-				dst[i*rows+j] = src[i*rows+j];
+				dst[i*cols+j] = src[i*cols+j];
 		}
 	}
 }
-- 
2.43.0


From 5edc2d44adc433eb5eff76f20c82e1f185d8aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 040/103] fix: dilation set a pixel when a neighbour was empty
 instead of when one was set

---
 modules/process/src/c_src/morphology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index 0a96363..a7095f8 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -119,7 +119,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]!=0)
 								flag = 1;
 						}
 					}
-- 
2.43.0


From 3cb293ced736aef1f18f47c283ee4f913c4ee7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 041/103] fix: opening and closing discarded the result of
 their first step

---
 modules/process/src/c_src/morphology.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index a7095f8..8dfb6da 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -157,11 +157,16 @@ void hypercv_open(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	simple_mat step = simple_mat_copy(src);
+	simple_mat result = simple_mat_copy(src);
 	for(int i=0;i<iterations;i++)
 	{
-	    hypercv_corrosion(src,dst,kernel);
-		hypercv_expend(src,dst,kernel);
+	    hypercv_corrosion(result,step,kernel);
+		hypercv_expend(step,result,kernel);
 	}
+	memcpy(dst->data, result->data, (long int)rows*cols*channels*get_elemsize(data_type));
+	delete_simple_mat(step);
+	delete_simple_mat(result);
 }
 
 /**
@@ -185,11 +190,16 @@ void hypercv_close(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	simple_mat step = simple_mat_copy(src);
+	simple_mat result = simple_mat_copy(src);
 	for(int i=0;i<iterations;i++)
 	{
-		hypercv_expend(src,dst,kernel);
-	    hypercv_corrosion(src,dst,kernel);
+		hypercv_expend(result,step,kernel);
+	    hypercv_corrosion(step,result,kernel);
 	}
+	memcpy(dst->data, result->data, (long int)rows*cols*channels*get_elemsize(data_type));
+	delete_simple_mat(step);
+	delete_simple_mat(result);
 }
 
 
-- 
2.43.0


From d6053b455218f730c393f96867172e33dcefdf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 042/103] fix: otsuThreshold read gray images as if they had
 three channels

---
 modules/process/src/c_src/threshold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 5323e6f..b667626 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -32,7 +32,7 @@ int otsuThreshold(simple_mat img)
 	{//计算直方图
 		for(int j=0;j<width;j++)
 		{
-			double temp =data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
+			double temp = channels != 3 ? data[i*step + j * channels] : data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
 			temp = temp<0? 0:temp;
 			temp = temp>255? 255:temp;
 			Histogram[(int)temp]++;
-- 
2.43.0


From 27e458217103bcaef2b5c212482bb0b8c2d1263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 043/103] fix: Otsu thresholding put the threshold gray level
 itself into the wrong class

---
 modules/process/src/c_src/threshold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index b667626..d73926e 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -204,7 +204,7 @@ void hypercv_threshold_otsu(simple_mat src_mat, simple_mat dst_mat)
 
 	for(int i=0;i<rows*cols*channels;i++)
 	{
-		if(src_data[i]<thresh)
+		if(src_data[i]<=thresh)
 			dst_data[i] = 0;
 		else
 			dst_data[i] = 255;
-- 
2.43.0


From c0ef805d5e064a0c11e0a8f0c03547081832fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 044/103] fix: weighted gray conversion used 0.578 instead of
 0.587 for green so white became 252

---
 modules/process/src/c_src/colortransform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 0ed2819..5b5b139 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -124,7 +124,7 @@ simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 			}
 			else if (method == 2)
 			{
-				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.578+rgb_data[i*cols*3+j*3+2]*0.114;
+				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.587+rgb_data[i*cols*3+j*3+2]*0.114;
 				gray_data[i*cols+j] = (int)tmp;
 			}
 			else
-- 
2.43.0


From f2ff89e8c0a40adb4578d60c1374a0e804c1f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 045/103] fix: float conversions wrapped around instead of
 saturating out-of-range values

---
 modules/process/src/c_src/datatypechange.c | 53 ++++++++--------------
 1 file changed, 20 insertions(+), 33 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index d345fd9..ab2d8b3 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -6,6 +6,16 @@
 
 #include "precomp.h"
 
+//round to the nearest integer (ties to even) and saturate to [low,high].
+static double round_saturate(double value, double low, double high)
+{
+	if(value<=low)
+		return low;
+	if(value>=high)
+		return high;
+	return rint(value);
+}
+
 /**
  * @brief      data type change .
  * @param[in]  uc_mat    unsigned char image.
@@ -143,7 +153,7 @@ hyper_mat hyper_mat_float2int(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i]=HYPERCV_ROUND(fdata[i]);
+		data[i]=(int)round_saturate(fdata[i],-2147483648.0,2147483647.0);
 	
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -171,14 +181,8 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>127)
-			data[i] = 128;
-		else if(tmp<-127)
-			data[i] = -127;
-		else
-			data[i] = tmp;
+		tmp = (int)round_saturate(fdata[i],-128,127);
+		data[i] = tmp;
 
 	}
 		
@@ -208,7 +212,7 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i] =(short)HYPERCV_ROUND(fdata[i]);
+		data[i] =(short)round_saturate(fdata[i],-32768,32767);
 		
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
@@ -236,11 +240,8 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-		if(tmp<0)
-			data[i] =0;
-		else
-			data[i] = tmp;
+		tmp = (int)round_saturate(fdata[i],0,65535);
+		data[i] = tmp;
 	}	
 
 	if(f_mat->wavelength != NULL)
@@ -269,14 +270,8 @@ hyper_mat hyper_mat_float2uchar(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>255)
-			data[i] = 255;
-		else if(tmp<0)
-			data[i] = 0;
-		else
-			data[i] = tmp;
+		tmp = (int)round_saturate(fdata[i],0,255);
+		data[i] = tmp;
 
 	}	
 
@@ -306,14 +301,7 @@ hyper_mat hyper_mat_float2uint(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 	for(int i=0;i<datasize;i++)
 	{
-		tmp = HYPERCV_ROUND(fdata[i]);
-
-		if(tmp>4294967295)
-			data[i] =4294967295;
-		else if(tmp<0)
-			data[i] = 0;
-		else
-			data[i] = tmp;
+		data[i] = (unsigned int)round_saturate(fdata[i],0,4294967295.0);
 
 	}	
 
@@ -379,8 +367,7 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 	   */
 	for(int i=0;i<rows*cols*cn;i++)
 	{
-		dst_data[i] = HYPERCV_ROUND(src_data[i])<=255?HYPERCV_ROUND(src_data[i]):255;
-		dst_data[i] = dst_data[i]>=0?dst_data[i]:0;
+		dst_data[i] = (unsigned char)round_saturate(src_data[i],0,255);
 	}
 	return dst;
 }
-- 
2.43.0


From 21e62344d7559ab31abbe1ba6fecd7253978730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 046/103] fix: hypercv_atof lost the sign of numbers followed
 by other text and misread signed exponents

---
 modules/process/src/c_src/datatypechange.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index ab2d8b3..2ed386f 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -390,7 +390,7 @@ float hypercv_atof(const char *str)
 
 	else if (*p == '+')
 		++p;
-	int hasDot = 0,hasE = 0;
+	int hasDot = 0,hasE = 0,expSign = 1;
 	float integerPart = 0.0,decimalPart = 0.0;
 
 	for (; *p; ++p)
@@ -407,14 +407,16 @@ float hypercv_atof(const char *str)
 		{
 			hasE = 1;
 			p++;
+			if (*p == '-' || *p == '+')
+				expSign = *p++ == '-' ? -1 : 1;
 			break;
 		}
 		else
-			return integerPart;
+			return sign * integerPart;
 	}
 
 	int decimalDigits = 1;
-	int exponential = 0;    
+	int exponential = 0;
 
 	for (; *p; p++)
 	{
@@ -426,6 +428,8 @@ float hypercv_atof(const char *str)
 			decimalPart = 0.0;
 			hasE = 1;
 			++p;
+			if (*p == '-' || *p == '+')
+				expSign = *p++ == '-' ? -1 : 1;
 			break;
 		}
 		else if (hasE && isdigit(*p))
@@ -437,7 +441,8 @@ float hypercv_atof(const char *str)
 		for (; *p; p++)
 			if (isdigit(*p))
 				exponential = 10 * exponential + *p - '0';
-	return sign * (integerPart * pow(10, exponential) + decimalPart);
+			else break;
+	return sign * (integerPart * pow(10, expSign * exponential) + decimalPart);
 
 }
 
-- 
2.43.0


From 67565c5576b997e64df6ff96fc0169794252947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 047/103] fix: interleave conversion and range extraction
 indices wrapped for cubes of 4 GiB and more

---
 modules/process/src/c_src/imageprocess.c | 50 ++++++++++++------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index d6f729d..fd70848 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -99,7 +99,7 @@ hyper_mat bil2bsq(hyper_mat bil_mat)
 	char* bil_data = (char*)bil_mat -> data;
 	char* bsq_data = (char*)bsq_mat -> data;
 
-	unsigned int bil_index = 0, bsq_index = 0;
+	size_t bil_index = 0, bsq_index = 0;
 
 	for (int k=0; k<bands; k++)
 	{
@@ -107,8 +107,8 @@ hyper_mat bil2bsq(hyper_mat bil_mat)
 		{
 			for (int j=0; j<samples; j++)
 			{
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
+				bil_index = ((size_t)i*samples*bands + k*samples + j)*elem_size;
+				bsq_index = ((size_t)k*samples*lines + i*samples + j)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bsq_data[bsq_index + t] = bil_data[bil_index + t];
@@ -149,7 +149,7 @@ hyper_mat bil2bip(hyper_mat bil_mat)
 	char* bil_data = (char*)bil_mat -> data;
 	char* bip_data = (char*)bip_mat -> data;
 
-	unsigned int bil_index = 0, bip_index = 0;
+	size_t bil_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -157,8 +157,8 @@ hyper_mat bil2bip(hyper_mat bil_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bil_index = ((size_t)i*samples*bands + k*samples + j)*elem_size;
+				bip_index = ((size_t)i*samples*bands + j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bip_data[bip_index + t] = bil_data[bil_index + t];
@@ -199,7 +199,7 @@ hyper_mat bsq2bil(hyper_mat bsq_mat)
 	char* bsq_data = (char*)bsq_mat -> data;
 	char* bil_data = (char*)bil_mat -> data;
 
-	unsigned int bsq_index = 0, bil_index = 0;
+	size_t bsq_index = 0, bil_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -207,8 +207,8 @@ hyper_mat bsq2bil(hyper_mat bsq_mat)
 		{
 			for (int j=0;j<samples; j++)
 			{
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
+				bsq_index = ((size_t)k*samples*lines + i*samples + j)*elem_size;
+				bil_index = ((size_t)i*samples*bands + k*samples + j)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bil_data[bil_index + t] = bsq_data[bsq_index + t];
@@ -250,7 +250,7 @@ hyper_mat bsq2bip(hyper_mat bsq_mat)
 	char* bsq_data = (char*)bsq_mat -> data;
 	char* bip_data = (char*)bip_mat -> data;
 
-	unsigned int bsq_index = 0, bip_index = 0;
+	size_t bsq_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -258,8 +258,8 @@ hyper_mat bsq2bip(hyper_mat bsq_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bsq_index = ((size_t)k*samples*lines + i*samples + j)*elem_size;
+				bip_index = ((size_t)i*samples*bands + j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bip_data[bip_index + t] = bsq_data[bsq_index + t];
@@ -300,7 +300,7 @@ hyper_mat bip2bsq(hyper_mat bip_mat)
 	char* bip_data = (char*)bip_mat -> data;
 	char* bsq_data = (char*)bsq_mat -> data;
 
-	unsigned int bsq_index = 0, bip_index = 0;
+	size_t bsq_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -308,8 +308,8 @@ hyper_mat bip2bsq(hyper_mat bip_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bsq_index = (k*samples*lines + i*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bsq_index = ((size_t)k*samples*lines + i*samples + j)*elem_size;
+				bip_index = ((size_t)i*samples*bands + j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bsq_data[bsq_index + t] = bip_data[bip_index + t]  ;
@@ -348,7 +348,7 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 	char* bip_data = (char*)bip_mat -> data;
 	char* bil_data = (char*)bil_mat -> data;
 
-	unsigned int bil_index = 0, bip_index = 0;
+	size_t bil_index = 0, bip_index = 0;
 
 	for (int i=0;i<lines; i++)
 	{
@@ -356,8 +356,8 @@ hyper_mat bip2bil(hyper_mat bip_mat)
 		{
 			for (int k=0; k<bands; k++)
 			{
-				bil_index = (i*samples*bands + k*samples + j)*elem_size;
-				bip_index = (i*samples*bands + j*bands + k)*elem_size;
+				bil_index = ((size_t)i*samples*bands + k*samples + j)*elem_size;
+				bip_index = ((size_t)i*samples*bands + j*bands + k)*elem_size;
 
 				for (int t=0; t<elem_size; t++)
 					bil_data[bil_index + t] = bip_data[bip_index + t];
@@ -402,7 +402,7 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 	char* src_data = (char*)src_mat->data;
 	char* dst_data = (char*)dst_mat->data;
 
-	int src_index =0, dst_index =0;
+	size_t src_index =0, dst_index =0;
 	int src_samples = src_mat -> samples;
 	int src_lines = src_mat -> lines;
 	int src_bands = src_mat -> bands;
@@ -415,8 +415,8 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 			{
 				for (int j = start_col; j < end_col; j++)
 				{
-					src_index = (i * src_samples * src_bands + k * src_samples + j) * elem_size;
-					dst_index = ((i - start_row) * samples * bands + (k - start_band) * samples + j - start_col) * elem_size;
+					src_index = ((size_t)i * src_samples * src_bands + k * src_samples + j) * elem_size;
+					dst_index = ((size_t)(i - start_row) * samples * bands + (k - start_band) * samples + j - start_col) * elem_size;
 
 					for (int t = 0; t < elem_size; t++)
 						dst_data[dst_index + t] = src_data[src_index + t];					
@@ -432,8 +432,8 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 			{
 				for (int k = start_band; k < end_band; k++)
 				{
-					src_index = (i * src_samples * src_bands + j * src_bands + k) * elem_size;
-					dst_index = ((i - start_row) * samples * bands + (j - start_col) * bands + k - start_band) * elem_size;
+					src_index = ((size_t)i * src_samples * src_bands + j * src_bands + k) * elem_size;
+					dst_index = ((size_t)(i - start_row) * samples * bands + (j - start_col) * bands + k - start_band) * elem_size;
 
 					for (int t = 0; t < elem_size; t++)
 						dst_data[dst_index + t] = src_data[src_index + t];					
@@ -449,8 +449,8 @@ hyper_mat hyper_mat_get_range(hyper_mat src_mat, int start_row, int start_col, i
 			{
 				for (int j = start_col; j < end_col; j++)
 				{
-					src_index = (k * src_samples * src_lines + i * src_samples + j) * elem_size;
-					dst_index = ((k - start_band) * samples * lines + (i - start_row) * samples + j - start_col) * elem_size;
+					src_index = ((size_t)k * src_samples * src_lines + i * src_samples + j) * elem_size;
+					dst_index = ((size_t)(k - start_band) * samples * lines + (i - start_row) * samples + j - start_col) * elem_size;
 
 					for (int t = 0; t < elem_size; t++)
 						dst_data[dst_index + t] = src_data[src_index + t];					
-- 
2.43.0


From 44b5ded62a063f625d8aafda29c9bec942d85b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 048/103] fix: filter2D changed the data type of its
 destination and added to its previous contents

---
 modules/process/src/c_src/filter.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 3ce9c5e..f3a19a1 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -87,7 +87,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 {
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
-	hypercv_assert(dst->data_type = 4,"dst data_type == float");
+	hypercv_assert(dst->data_type == 4,"dst data_type == float");
 
 	int rows = src->rows;
 	int cols = src->cols;
@@ -96,7 +96,8 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 	
 	unsigned char* src_data = (unsigned char*)src->data;
 	float* dst_data = (float*)dst->data;
-	
+	memset(dst_data, 0, sizeof(float)*rows*cols*cn);
+
 	int index_i,index_j;
 	for(int i=0;i<rows;i++)
 	{
-- 
2.43.0


From 223ed041473921242e2d857e70c9b97f963aa697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 049/103] fix: median blur always aborted and would not have
 computed a median

---
 modules/process/src/c_src/filter.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index f3a19a1..4d4966c 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -11,19 +11,19 @@
 /////////////////////////////////////////////////////////////////////////
 //____________________private function________________________
 
-static void swap(unsigned char a,unsigned char b)
+static void swap(unsigned char* a,unsigned char* b)
 {
-	unsigned char c = a;
-	a = b;
-	b = c;
+	unsigned char c = *a;
+	*a = *b;
+	*b = c;
 }
 
 static unsigned char median_member(unsigned char* array,int size)
 {
-	for(int gap = size/2; gap++; gap/=2)
+	for(int gap = size/2; gap>0; gap/=2)
 		for(int i=gap; i<size; i++)
 			for(int j=i-gap; j>=0 && array[j]>array[j+gap]; j-=gap)
-				swap(array[j],array[j+gap]);
+				swap(&array[j],&array[j+gap]);
 	return array[size/2]; 
 }
 
@@ -140,7 +140,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
  **/
 void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat,"input mat can not be NULL");
 	hypercv_assert(size%2==1,"size should be odd number");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -160,12 +160,13 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
 				for(int m = -size/2;m<=size/2;m++)
 					for(int n = -size/2; n<=size/2;n++)
 						arr[(m+size/2)*size+n+size/2] = src_data[(i+m)*cols+j+n];
-				dst_data[i*cols+j] = median_member(arr,size); 
+				dst_data[i*cols+j] = median_member(arr,size*size); 
 			}
 			else 
 				dst_data[i*cols+j] = src_data[i*cols+j];
 		}
 	}
+	free(arr);
 }
 
 /**
-- 
2.43.0


From 12633ff18b53fa0266d53e50bc84d16cce26d45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 050/103] fix: mean blur always aborted, mixed up rows and
 columns and used a lopsided window

---
 modules/process/src/c_src/filter.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 4d4966c..df3d8a1 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -177,7 +177,7 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
  **/
 void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat,"input mat can not be NULL");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -185,20 +185,19 @@ void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
-	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
 
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
 		{
 		    int sum=0,num=0;
-			for(int m = -size/2;m<size/2;m++)
+			for(int m = -(size/2);m<size-size/2;m++)
 			{
-				for(int n = -size/2; n<size/2;n++)
+				for(int n = -(size/2); n<size-size/2;n++)
 				{
-					if((i+m)>=0&&(i+m)<rows&&(j+m)>=0&&(j+m)<cols)
+					if((i+m)>=0&&(i+m)<rows&&(j+n)>=0&&(j+n)<cols)
 					{
-						sum+= src_data[(i+m)*cols+j+m];
+						sum+= src_data[(i+m)*cols+j+n];
 						num++;	 
 					}
 
-- 
2.43.0


From 939c388777e67c2ac512bd0bfa409c612d5dd07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 051/103] fix: gaussian blur leaked its kernels and temporary
 image

---
 modules/process/src/c_src/filter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index df3d8a1..fbe0c64 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -311,6 +311,8 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
 	simple_mat kernel_mat_x = gaussian_kernel(ksize_width, sigma1, kdepth);
 	simple_mat kernel_mat_y = gaussian_kernel(ksize_height,sigma2, kdepth);
 	hypercv_gaussian_blur_with_kernel(src_mat, dst_mat, kernel_mat_x, kernel_mat_y, border_type);
+	delete_simple_mat(kernel_mat_x);
+	delete_simple_mat(kernel_mat_y);
 }
 
 /**
@@ -452,6 +454,7 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 			}
 		}
 	}
+	delete_simple_mat(temp_mat);
 }
 
 /**
-- 
2.43.0


From 37c7c4b80a5ba58dc993af38807453328bbeded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 052/103] fix: integral image was not cumulative along the
 first row and column

---
 modules/process/src/c_src/filter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index fbe0c64..193734b 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -486,8 +486,12 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			if(i==0||j==0)
+			if(i==0&&j==0)
 				dst_data[i*cols+j] = src_data[i*cols+j];
+			else if(i==0)
+				dst_data[i*cols+j] = dst_data[i*cols+j-1] + src_data[i*cols+j];
+			else if(j==0)
+				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + src_data[i*cols+j];
 			else
 				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + dst_data[i*cols+j-1] + src_data[i*cols+j]-dst_data[(i-1)*cols+j-1];	
 		}
-- 
2.43.0


From 5755aded6e435ca02c88140bced373ed8e595c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 053/103] fix: border creation scrambled images whose elements
 are wider than one byte

---
 modules/process/src/c_src/filter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 193734b..1d8cba4 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -44,7 +44,7 @@ static void hypercv_make_const_border(simple_mat src, simple_mat dst, int top, i
 	int src_cols = src->cols;
 	int dst_rows = dst->rows;
 	int dst_cols = dst->cols;
-	int channels = src->channels;
+	int channels = src->channels*get_elemsize(src->data_type);
 
 	unsigned char* src_data = (unsigned char*)src->data;
 	unsigned char* dst_data = (unsigned char*)dst->data;
@@ -536,8 +536,8 @@ simple_mat hypercv_copy_make_border(simple_mat src, int top, int bottom, int lef
 
 	int dst_rows = dst->rows;
 	int dst_cols = dst->cols;
-	int channels = dst->channels;
 	int elemsize = get_elemsize(dst->data_type);
+	int channels = dst->channels*elemsize;
 	int src_rows = src->rows;
 	int src_cols = src->cols;
 
-- 
2.43.0


From 6549b8a7e26bbcfda4f07ca1b94d5ff2b92cf053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:43 +0000
Subject: [PATCH 054/103] fix: inserting a band ignored the element size

---
 modules/process/src/c_src/imageprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index fd70848..b9ba132 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -536,10 +536,13 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 	hypercv_assert(band<=bands&&band>0,"band<bands");
 	hypercv_assert(cmpstr(dst_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
-	char* dst = (char*)dst_mat->data + samples*lines*(band-1);
+	hypercv_assert(src_mat->data_type==dst_mat->data_type&&src_mat->channels==1,"simple mat type unequal to hyper mat");
+	long int bandsize = (long int)samples*lines*get_elemsize(dst_mat->data_type);
+
+	char* dst = (char*)dst_mat->data + bandsize*(band-1);
 	char* src = (char*)src_mat->data;
 
-	memcpy(dst,src,samples*lines);
+	memcpy(dst,src,bandsize);
 }
 
 /**
-- 
2.43.0


From 5f373b00d0a91e0289cf79fdf9b8dee5fca2b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 055/103] fix: band extraction read outside the cube for bad
 bands, overran small images and left a stale element size

---
 modules/process/src/c_src/imageprocess.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index b9ba132..7139dce 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -507,17 +507,24 @@ simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst
 void hyper_mat_2_simple_mat(hyper_mat src_mat, simple_mat dst_mat, int band)
 {
 	hypercv_assert(cmpstr(src_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
+	hypercv_assert(band>0&&band<=src_mat->bands, "band must lie inside the hyper mat");
 	int samples,lines;
 	samples = src_mat -> samples;
 	lines = src_mat -> lines;
+
+	int elemsize = get_elemsize(src_mat->data_type);
+	long int bandsize = (long int)samples*lines*elemsize;
+	hypercv_assert((long int)dst_mat->rows*dst_mat->cols*dst_mat->channels*get_elemsize(dst_mat->data_type)>=bandsize, "simple mat is too small for the band");
+
 	dst_mat -> rows = lines;
 	dst_mat -> cols = samples;
 	dst_mat -> data_type = src_mat -> data_type;
-    
-	int elemsize = get_elemsize(src_mat->data_type);
-	char* data = (char*)src_mat->data+(samples*lines*(band-1)*elemsize);
+	dst_mat -> channels = 1;
+	dst_mat -> elem_size = elemsize;
+
+	char* data = (char*)src_mat->data+bandsize*(band-1);
 
-	memcpy((char*)dst_mat->data,(char*)data,samples*lines*elemsize);
+	memcpy((char*)dst_mat->data,(char*)data,bandsize);
 }
 
 
-- 
2.43.0


From c0156291259f36468c9f09e102887d339040d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 056/103] fix: transposing a multi-channel image ignored its
 channels

---
 modules/process/src/c_src/imageprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 7139dce..a40f964 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -562,10 +562,10 @@ void simple_mat_transport(simple_mat res,simple_mat src)
 	int rows = res->rows;
 	int cols = res->cols;
 	
-	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type, "data size of transport image equal to srcmat ");
+	hypercv_assert(rows == src->cols && cols == src->rows && res->data_type == src->data_type && res->channels == src->channels, "data size of transport image equal to srcmat ");
 
 	int data_type = src->data_type;
-	int elemsize = get_elemsize(data_type);
+	int elemsize = get_elemsize(data_type)*src->channels;
 
 	char *res_data = (char*)res->data;
 	char *src_data = (char*)src->data;
-- 
2.43.0


From c45b2d4e01706ff432c8540c031dcee4b4678403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 057/103] fix: adding images of different widths used the
 smaller width as the row stride of all of them

---
 modules/process/src/c_src/imageprocess.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index a40f964..5a35f70 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -595,6 +595,8 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	else
 		cols = mat1->cols;
 
+	hypercv_assert(dst_mat->rows>=rows&&dst_mat->cols>=cols&&dst_mat->channels==channels,"dst mat is too small");
+
 	unsigned char* data1 = (unsigned char*)mat1->data;
 	unsigned char* data2 = (unsigned char*)mat2->data;
 	
@@ -603,7 +605,7 @@ void simple_mat_addition_uchar(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)	
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[i*dst_mat->cols*channels+j*channels+k] = data1[i*mat1->cols*channels+j*channels+k]+data2[i*mat2->cols*channels+j*channels+k];
 
 }
 
@@ -625,6 +627,8 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	else
 		cols = mat1->cols;
 
+	hypercv_assert(dst_mat->rows>=rows&&dst_mat->cols>=cols&&dst_mat->channels==channels,"dst mat is too small");
+
 	float* data1 = (float*)mat1->data;
 	float* data2 = (float*)mat2->data;
 	float* dst_data = (float*)dst_mat->data;
@@ -632,7 +636,7 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			for(int k=0;k<channels;k++)
-				dst_data[i*cols*channels+j*channels+k] = data1[i*cols*channels+j*channels+k]+data2[i*cols*channels+j*channels+k];
+				dst_data[i*dst_mat->cols*channels+j*channels+k] = data1[i*mat1->cols*channels+j*channels+k]+data2[i*mat2->cols*channels+j*channels+k];
 
 }
 
-- 
2.43.0


From b0d2b3f5202dae8ca8f90096d9beb1141a45bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 058/103] fix: splicing wrote outside the cube when the part
 did not fit

---
 modules/process/src/c_src/imageprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5a35f70..6588896 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -659,11 +659,14 @@ void hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start_index)
 {
 	hypercv_assert(mat->data_type == part->data_type,"data type error");
 
-	int elemsize = get_elemsize(mat->data_type); 
+	long int elemsize = get_elemsize(mat->data_type); 
+	long int mat_num = (long int)mat->samples*mat->lines*mat->bands;
+	long int part_num = (long int)part->samples*part->lines*part->bands;
+	hypercv_assert(start_index>=0&&start_index<=mat_num-part_num,"part does not fit into mat");
 
 	unsigned char* mat_data = (unsigned char*)mat->data+start_index*elemsize;
 	unsigned char* part_data= (unsigned char*)part->data;
 
-	memcpy(mat_data, part_data,part->samples*part->lines*part->bands*elemsize);
+	memcpy(mat_data, part_data,part_num*elemsize);
 }
 
-- 
2.43.0


From a5e8cc377eff4d2b0a30fcf0cacef59f0aec97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 059/103] fix: reshape truncated the sizes it compares and
 copies to int

---
 modules/process/src/c_src/imageprocess.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 6588896..0d214a1 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -486,14 +486,14 @@ simple_mat reshape_hypermat_2_simplemat(hyper_mat src_mat, int dst_rows, int dst
 	int src_lines = src_mat -> lines;
 	int src_bands = src_mat -> bands;
 
-	int src_size = src_samples * src_lines * src_bands;
-	int dst_size = dst_rows * dst_cols ;
+	long int src_size = (long int)src_samples * src_lines * src_bands;
+	long int dst_size = (long int)dst_rows * dst_cols ;
 
 	hypercv_assert(src_size == dst_size, "reshape could not change the size");
 
 	simple_mat dst_mat = create_simple_mat(dst_rows, dst_cols, src_mat->data_type,1);
 
-	memcpy(dst_mat->data, src_mat->data, dst_rows * dst_cols * dst_mat->elem_size);
+	memcpy(dst_mat->data, src_mat->data, dst_size * dst_mat->elem_size);
 
 	return dst_mat;
 }
-- 
2.43.0


From 4119428574098ead5c4293fddbf9848f958c0a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 060/103] fix: factorial of 10 returned 11!

---
 modules/process/src/c_src/mathprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/mathprocess.c b/modules/process/src/c_src/mathprocess.c
index 412c8ff..103a851 100644
--- a/modules/process/src/c_src/mathprocess.c
+++ b/modules/process/src/c_src/mathprocess.c
@@ -6,7 +6,7 @@
  ************************************************************************/
 #include "precomp.h"
 
-static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 39916800};
+static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 3628800};
 /**
  * @brief      calculate the mean value . .
  * @param[in]  t          vector t
-- 
2.43.0


From a50b045e6594db602e91d375e37fd30d57dffca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 061/103] fix: matrix multiplication added to whatever the
 result buffer held

---
 modules/process/src/c_src/matrixprocess.c | 24 +++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 8e8dc98..5eed698 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -12,8 +12,11 @@ void MulMatrix_char(char *x,char *y,char*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -26,8 +29,11 @@ void MulMatrix_uchar(unsigned char *x,unsigned char *y, unsigned char*z, int m,i
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -40,8 +46,11 @@ void MulMatrix_short(short *x,short *y,short*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -54,8 +63,11 @@ void MulMatrix_ushort(unsigned short *x,unsigned short *y,unsigned short *z, int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //矩阵乘法
@@ -69,8 +81,11 @@ void MulMatrix_int(int *x,int *y,int*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -83,8 +98,11 @@ void MulMatrix_uint(unsigned int *x, unsigned int *y, unsigned int *z, int m,int
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -97,8 +115,11 @@ void MulMatrix_float(float *x,float *y, float* z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 //矩阵乘法
 /********参数表*******
@@ -111,8 +132,11 @@ void MulMatrix_double(double *x, double *y, double*z, int m,int k,int n)
 {
     for(int nm=0; nm<m; nm++)
         for(int nn=0; nn<n; nn++)
+        {
+            z[nm*n+nn] = 0;
             for(int nk=0; nk<k; nk++)
                 z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];
+        }
 }
 
 //距阵转置
-- 
2.43.0


From 960f961666794cebcee88575d4f2c6dbe6541d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 062/103] fix: QR decomposition did not project onto the
 previous columns and leaked

---
 modules/process/src/c_src/matrixprocess.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 5eed698..91341e8 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -261,16 +261,20 @@ void matrix_QR_float(float* a, float* q, float *r,int m)
 		{
 			r[k*m+j] = 0;
 			for(int i1=0; i1<m;i1++)
-				r[k*m+j]+=col_a[i1];
+				r[k*m+j]+=col_a[i1]*q[i1*m+k];
 			for(int i2=0;i2<m;i2++)
-				col_q[i2] -= r[k*m+j];
+				col_q[i2] -= r[k*m+j]*q[i2*m+k];
 		}
 
 		float tmp = matrix_norm_float(col_q,m);
 		r[j*m+j] = tmp;
+		for(int k=j+1;k<m;k++)
+			r[k*m+j] = 0;
 		for(int i = 0;i<m;i++)
 			q[i*m+j] = col_q[i]/tmp;
 	}
+	free(col_a);
+	free(col_q);
 }
 
 void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m,int n)
-- 
2.43.0


From 4c2291f95d66f2d680411a467ea547bfd33a53c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 063/103] fix: eigenvector elimination did not normalise the
 first pivot

---
 modules/process/src/c_src/matrixprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 91341e8..0c26058 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -294,7 +294,7 @@ void cal_eigen_vector_float(float* a, float* eigenvector, float*eigenvalue,int m
 		{
 			float coe = temp[i*n+i];
 			
-			for(int j=1;j<n;j++)
+			for(int j=i;j<n;j++)
 				temp[i*n+j]/=coe;
 
 			for (int i1 = i + 1; i1 < m; i1++)
-- 
2.43.0


From 812adbdb67d3aa16401d49f5dc66a42728a82855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 064/103] fix: spectral angle truncated every product to int
 and could be NaN for parallel spectra

---
 modules/process/src/c_src/spectralprocess.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 4eaf7f7..7a854df 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -93,12 +93,15 @@ float spectral_angle_mapper(float * x, float * y, int length)
 
 	for (int i = 0; i<length; i++)
 	{
-		XY += abs(x[i] * y[i]);
+		XY += fabs(x[i] * y[i]);
 		X += (x[i])*(x[i]);
 		Y += (y[i])*(y[i]);
 	}
 
-	res = acos(XY / sqrt(X*Y));
+	double cosine = XY / sqrt(X*Y);
+	if(cosine > 1)
+		cosine = 1;
+	res = acos(cosine);
 
 	return res;
 }
-- 
2.43.0


From ba0f8c51d43a0f26a58d1e5d37e8704cf7666254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 065/103] fix: SAM matching marked the pixels that differ from
 the spectrum instead of those that match

---
 modules/process/src/c_src/spectralprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 7a854df..6745b21 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -66,7 +66,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 
 			smat = (char*)match_image->data + i*samples +j;
 			
-			if(res>=threshold)
+			if(res<=threshold)
 				*smat = 1;
 			else
 				*smat = 0;
-- 
2.43.0


From 75f02f1542df426e064188519569440b6499af3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 066/103] fix: spectral functions read cubes of other data
 types as float

---
 modules/process/src/c_src/spectralprocess.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 6745b21..0866452 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -40,6 +40,7 @@ simple_mat spectrum_SAM_match(hyper_mat bip_mat, float* spectrum, float threshol
 {
 	hypercv_assert(bip_mat != NULL,                       "input hyper mat must not be NULL");
 	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1,"hyper mat interleave should be bip");
+	hypercv_assert(bip_mat->data_type == 4,               "hyper mat data type should be float");
 	hypercv_assert(spectrum != NULL,                      "spectrum must not be NULL");
 
 	int samples = bip_mat -> samples;
@@ -164,7 +165,7 @@ void hyper_mat_mean(hyper_mat bip_mat, simple_mat dst_mat)
 	int lines = bip_mat -> lines;
 	int bands = bip_mat -> bands;
 	hypercv_assert(samples == dst_mat -> cols&&lines == dst_mat->rows,"dst_mat size == bip_mat size");
-	hypercv_assert(dst_mat->data_type == 4,"simple mat datatype ==4");
+	hypercv_assert(bip_mat->data_type == 4&&dst_mat->data_type == 4,"hyper mat and simple mat datatype ==4");
 //todo other data type
 	float* src_data = (float*)bip_mat->data;
 	float* dst_data = (float*)dst_mat->data;
-- 
2.43.0


From b7c79fc37ebee50d8c51b924bdf0ef5c86ed9c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 067/103] fix: read_spectrum_file overran its buffer on long
 files and never ended on non-numeric text

---
 modules/process/src/c_src/spectralprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 0866452..98847f6 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -119,13 +119,13 @@ float* read_spectrum_file(const char* sp_path, int length)
 
 	hypercv_assert(fp != NULL, "can not open files");
 
-	float* spectrum = (float*)malloc(length*sizeof(float));
+	float* spectrum = (float*)calloc(length,sizeof(float));
 
 	float* sp = spectrum;
 
 	float temp = 0;
 
-	while (fscanf(fp, "%f", &temp) != EOF)
+	while (sp < spectrum+length && fscanf(fp, "%f", &temp) == 1)
 	{
 		*sp = temp;
 		sp++;
-- 
2.43.0


From 88973a364058285f0ec5a5ef7722e7292483ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 068/103] fix: hyper_mat_transport overran a destination with a
 smaller data type

---
 modules/process/src/c_src/spectralprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 98847f6..f94b44d 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -194,7 +194,7 @@ void hyper_mat_transport(hyper_mat dst_mat, hyper_mat src_mat)
 	int s_lines = src_mat->lines;
 	int d_lines = dst_mat->lines;
 	int bands = src_mat->bands;
-	hypercv_assert(s_samples == d_lines && s_lines == d_samples&& bands == dst_mat->bands,"size must equal");
+	hypercv_assert(s_samples == d_lines && s_lines == d_samples&& bands == dst_mat->bands && src_mat->data_type == dst_mat->data_type,"size must equal");
 	char* src =(char*)src_mat->data;
 	char* dst =(char*)dst_mat->data;
 	int elemsize = get_elemsize(src_mat ->data_type);
-- 
2.43.0


From 863c017bbd232f49fdd4959740a2f897093fa5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 069/103] fix: binary to rgb conversion turned 255 into 1

---
 modules/process/src/c_src/colortransform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 5b5b139..2704395 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -59,7 +59,7 @@ simple_mat sm_binary2rgb(simple_mat binary_image)
 	for(int i=0;i<rows;i++)
 		for(int j=0;j<cols;j++)
 			for(int k=0;k<channels;k++)
-				rgb_data[i*cols*3+j*3+k] = binary_data[i*cols+j]*255;
+				rgb_data[i*cols*3+j*3+k] = binary_data[i*cols+j]?255:0;
 
 	return rgb_image;
 }
-- 
2.43.0


From 4a3c6a0b33b5a200b4da69c1c05ceca4c8e45f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 070/103] fix: edge signal energy overwrote the channels and
 data type of its input

---
 modules/algorithm/src/EdgeSignalEnergy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index 7ffdee2..d1d5c83 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -9,8 +9,8 @@
 float cal_edge_signal_energy(simple_mat mat)
 {
 	hypercv_assert(mat!=NULL, "input mat cannot be NULL");
-	hypercv_assert(mat->channels = 1,"only use in grayimage");
-	hypercv_assert(mat->data_type = 1,"data_type == 1");
+	hypercv_assert(mat->channels == 1,"only use in grayimage");
+	hypercv_assert(mat->data_type == 1,"data_type == 1");
   
 	float opt1[9] = {-1,-1,1,-1,4,-1,1,-1,-1};
 	float opt2[9] = {1,-1,-1,-1,4,-1,-1,-1,1};
-- 
2.43.0


From 146364208359a92edbba968159f9975601b487d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 071/103] fix: histogram equalization scaled the cumulative
 counts while still accumulating them

---
 modules/algorithm/src/HisEqualization.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 5b45383..d1e79a0 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -27,10 +27,10 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 		hist[data[i]]+=1;
 	
 	for(int i=1; i<256; i++)
-	{
 		hist[i] += hist[i-1];
-		hist[i] = hist[i]*255/(rows*cols);
-	}
+
+	for(int i=0; i<256; i++)
+		hist[i] = (int)((long int)hist[i]*255/(rows*cols));
 	
 	for(int i=0; i<rows*cols; i++)
 		dst_data[i] = hist[data[i]];
-- 
2.43.0


From cc85465a5eb1d0fc8ffd8662c71f9b5ce8fa9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 072/103] fix: linear stretch ignored negative maxima, divided
 by zero for constant bands and read other data types as float

---
 modules/algorithm/src/HisEqualization.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index d1e79a0..928694f 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -43,6 +43,7 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 	int lines = bsq_mat -> lines;
 	int bands = bsq_mat -> bands;
 	hypercv_assert(dst_mat->samples == samples&& dst_mat->lines == lines&&dst_mat->bands == bands,"src mat size == dst mat size");
+	hypercv_assert(bsq_mat ->data_type ==4,"src data type float");
 	hypercv_assert(dst_mat ->data_type ==1,"dst data type char");
 	float * srcdata = (float*)bsq_mat -> data;
 	unsigned char* dstdata = (unsigned char*) dst_mat->data;
@@ -53,8 +54,8 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 	int res=0;
 	for(int k=0; k<bands; k++)
 	{
-		maxdata = 0.0;
-		mindata = 1000000000;
+		maxdata = srcdata[k*samples*lines];
+		mindata = maxdata;
 		tmp =0.0;
 		res =0;
 		for(int i=0; i<lines;i++)
@@ -68,8 +69,9 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 					mindata = tmp;
 			}
 		}
-		float m = 255/(maxdata-mindata);
-		float n = -mindata*255/(maxdata-mindata);
+		float range = maxdata>mindata?maxdata-mindata:1;
+		float m = 255/range;
+		float n = -mindata*255/range;
 		for(int i=0; i<lines;i++)
 		{
 			for(int j=0; j<samples; j++)
-- 
2.43.0


From 9bb6e00c99d6848bfba5adb3a1738c78f6937f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 073/103] fix: CEM passed the matrices to the multiplication in
 the wrong order and overwrote the caller's spectrum

---
 modules/algorithm/src/cem.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 40092db..b9cfea9 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -43,9 +43,9 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	float* fir2 = (float*)malloc(bands * sizeof(float));
 	float* fir3 = (float*)malloc(sizeof(float));
 
-	MulMatrix_float(fir1, invdata, spectral, bands, bands, 1);
-	MulMatrix_float(fir2, spectral, invdata, 1, bands, bands);
-	MulMatrix_float(fir3, fir2, spectral, 1, bands, 1);
+	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
+	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
+	MulMatrix_float(fir2, spectral, fir3, 1, bands, 1);
 
 	for(int i=0; i<bands; i++)
 		fir1[i] = fir1[i]/fir3[0];
@@ -53,7 +53,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	simple_mat res = create_simple_mat(lines, samples, data_type, 1);
 	float* res_data = (float*)res->data;
 
-	MulMatrix_float(res_data, t_data, fir1, samples*lines,bands, 1);
+	MulMatrix_float(t_data, fir1, res_data, samples*lines,bands, 1);
 
 	delete_simple_mat(src);
 	delete_simple_mat(t);
-- 
2.43.0


From 1c4bbce4ebd03a75318f8032da8b3d3fd7a7fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 074/103] fix: k-means stopped when centres moved left or up,
 moved empty clusters to the corner and leaked

---
 modules/algorithm/src/cluster.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/cluster.c b/modules/algorithm/src/cluster.c
index 14977a3..3a539b2 100644
--- a/modules/algorithm/src/cluster.c
+++ b/modules/algorithm/src/cluster.c
@@ -86,9 +86,11 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 			if(num[k] != 0)
 			{
 			v2[k].x = v2[k].x / num[k];
-		    v2[k].y = v2[k].y / num[k];
+			v2[k].y = v2[k].y / num[k];
 			}
-			if(v2[k].x-v1[k].x > iter_threshold || v2[k].y-v1[k].y > iter_threshold)
+			else
+				v2[k] = v1[k];
+			if(abs(v2[k].x-v1[k].x) > iter_threshold || abs(v2[k].y-v1[k].y) > iter_threshold)
 				flag = 1;
 			v1[k].x = v2[k].x;
 			v1[k].y = v2[k].y;
@@ -101,4 +103,6 @@ void hypercv_k_means(simple_mat src, POINT* v1, int kind, int iter_threshold)
 	}
 	free(v2);
 	free(num);
+	if(mat != src)
+		delete_simple_mat(mat);
 }
-- 
2.43.0


From 4fb67cc9d6f33e811775491b2d6a85f0d7ca49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 075/103] fix: magnitude read the imaginary part at the wrong
 index

---
 modules/algorithm/src/dft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 4348a79..3ce9c41 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -244,7 +244,7 @@ void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols*j],2));
+			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols+j],2));
 		}
 	}
 }
-- 
2.43.0


From 8d35bf438973f048a65387865fb7d353541691b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 076/103] fix: the inverse DFT did not invert the DFT (wrong
 scale)

---
 modules/algorithm/src/dft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 3ce9c41..ab2a60d 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -189,7 +189,7 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
 		}
 	}
 }
@@ -222,7 +222,7 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
 		}
 	}
 }
-- 
2.43.0


From 694ac986f8beff6db1b44c1f54f95fa4596e1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 077/103] fix: the 16 bit inverse DFT clipped its result to 255

---
 modules/algorithm/src/dft.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index ab2a60d..a2deda1 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -222,7 +222,8 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
+			real = real / (rows*cols);
+			dst_data[i*cols+j] = real<=0?0:(real>=65535?65535:HYPERCV_ROUND(real));
 		}
 	}
 }
-- 
2.43.0


From 68c74d6c5849d72f7dda9e9aa58ca904b8dbf395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 078/103] fix: normalizing float images quantised the result to
 integers in 0..255

---
 modules/algorithm/src/normalize.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index d025d63..ca4f76d 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -100,7 +100,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
+			dst_data[i] =(src_data[i]*alpha/L1_norm);
 	}
 	if(norm_type == NORM_L2)
 	{
@@ -108,7 +108,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
+			dst_data[i] = (src_data[i]*alpha/sqrt(L2_norm));
 	}
 
 	if(norm_type == NORM_INF)
@@ -117,7 +117,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
+			dst_data[i] = (src_data[i]*alpha/INF_norm);
 	}
 	if(norm_type == NORM_MINMAX)
 	{
@@ -131,7 +131,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
+			dst_data[i] = ((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
 	}
 }
 
-- 
2.43.0


From d77ccab8c16898a4704c4d01e60deeb2ec2dc233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 079/103] fix: min-max normalization missed values beyond one
 million

---
 modules/algorithm/src/normalize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index ca4f76d..71ee7d5 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -66,7 +66,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 	}
 	if(norm_type == NORM_MINMAX)
 	{
-		float maxsrc=-1000000,minsrc=1000000;
+		float maxsrc=src_data[0],minsrc=src_data[0];
 		for(int i=0;i<rows*cols;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
@@ -121,7 +121,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	}
 	if(norm_type == NORM_MINMAX)
 	{
-		float maxsrc=-1000000,minsrc=1000000;
+		float maxsrc=src_data[0],minsrc=src_data[0];
 		for(int i=0;i<rows*cols;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
-- 
2.43.0


From fcab3272f74b437fe782dd283b027ae4fe53cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 080/103] fix: normalization left the channels but the first
 part of multi-channel images untouched and ignored the destination type

---
 modules/algorithm/src/normalize.c | 38 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index 71ee7d5..f9a34d5 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -18,7 +18,7 @@
 void hypercv_normalize(simple_mat src, simple_mat dst, float alpha, float beta, int norm_type)
 {
     hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
-	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols&&dst->channels==src->channels&&dst->data_type==src->data_type,"src size == dst size");
 
 	if(src->data_type == 1)
 		hypercv_normalize_uchar(src, dst, alpha, beta, norm_type);
@@ -29,7 +29,7 @@ void hypercv_normalize(simple_mat src, simple_mat dst, float alpha, float beta,
 void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float beta, int norm_type)
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
-	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols&&dst->channels==src->channels&&dst->data_type==src->data_type,"src size == dst size");
 	int rows = src->rows;
 	int cols = src->cols;
 	int data_type = src->data_type;
@@ -42,32 +42,32 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 	if(norm_type == NORM_L1)
 	{
 		float L1_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
 	}
 	if(norm_type == NORM_L2)
 	{
 		float L2_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L2_norm += src_data[i]*src_data[i];
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
 	}
 	if(norm_type == NORM_MINMAX)
 	{
 		float maxsrc=src_data[0],minsrc=src_data[0];
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
 			minsrc = minsrc<src_data[i]?minsrc:src_data[i];
@@ -75,7 +75,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 		float b = alpha>beta?alpha:beta;
 		float a = alpha>beta?beta:alpha;
 
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
 	}
 }
@@ -84,7 +84,7 @@ void hypercv_normalize_uchar(simple_mat src, simple_mat dst, float alpha, float
 void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float beta, int norm_type)
 {
 	hypercv_assert(src!=NULL&&dst!=NULL,"INPUT MAT could not be null");
-	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols,"src size == dst size");
+	hypercv_assert(dst->rows==src->rows&&dst->cols==src->cols&&dst->channels==src->channels&&dst->data_type==src->data_type,"src size == dst size");
 	int rows = src->rows;
 	int cols = src->cols;
 	int data_type = src->data_type;
@@ -97,32 +97,32 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	if(norm_type == NORM_L1)
 	{
 		float L1_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] =(src_data[i]*alpha/L1_norm);
 	}
 	if(norm_type == NORM_L2)
 	{
 		float L2_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			L2_norm += src_data[i]*src_data[i];
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = (src_data[i]*alpha/sqrt(L2_norm));
 	}
 
 	if(norm_type == NORM_INF)
 	{
 		float INF_norm = 0;
-		for (int i =0;i< rows*cols;i++ )
+		for (int i =0;i< rows*cols*channels;i++ )
 			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = (src_data[i]*alpha/INF_norm);
 	}
 	if(norm_type == NORM_MINMAX)
 	{
 		float maxsrc=src_data[0],minsrc=src_data[0];
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
 			minsrc = minsrc<src_data[i]?minsrc:src_data[i];
@@ -130,7 +130,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float b = alpha>beta?alpha:beta;
 		float a = alpha>beta?beta:alpha;
 
-		for(int i=0;i<rows*cols;i++)
+		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = ((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
 	}
 }
-- 
2.43.0


From 942b5e9fbcf21e501e87293f76d695fce0c381ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 081/103] fix: infinity norm of float images ignored negative
 values

---
 modules/algorithm/src/normalize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index f9a34d5..dee511e 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -115,7 +115,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	{
 		float INF_norm = 0;
 		for (int i =0;i< rows*cols*channels;i++ )
-			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
+			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
 		for(int i=0;i<rows*cols*channels;i++)
 			dst_data[i] = (src_data[i]*alpha/INF_norm);
 	}
-- 
2.43.0


From 9949a2e58871c5afa20e24c25dca5e77653778c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 082/103] fix: shape matching leaked its moments

---
 modules/algorithm/src/shapematch.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 5e12322..ef26ccd 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -114,6 +114,8 @@ double hypercv_match_shapes(simple_mat mat1, simple_mat mat2)
 
 	double res=0;
 	res = calc_similar_hu(hu1,hu2);
+	free(hu1);
+	free(hu2);
 	return res;
 }
 
-- 
2.43.0


From 51dae2aab694f035a72ff532080cb78c3579899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 083/103] fix: draw_line drew an infinite line with the
 inverted slope, nothing for vertical lines and nothing on gray images

---
 modules/highgui/src/draw.c | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index bae668a..1180e9e 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -59,29 +59,32 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 
 	memcpy(dst_data,src_data,rows*cols*channels);	
 
-	float k = (float)(pt2.x-pt1.x)/(pt2.y-pt1.y);
-	float b = (float)pt1.y-k*pt1.x;
+	int dx = pt2.x-pt1.x;
+	int dy = pt2.y-pt1.y;
+	int steps = abs(dx)>abs(dy)?abs(dx):abs(dy);
 
-	for(int i=0;i<rows;i++)
+	for(int s=0;s<=steps;s++)
 	{
-		for(int j=0;j<cols;j++)
+		//the point of the segment after s steps along its longer side.
+		int x = steps==0?pt1.x:(int)floor(pt1.x+(double)dx*s/steps+0.5);
+		int y = steps==0?pt1.y:(int)floor(pt1.y+(double)dy*s/steps+0.5);
+
+		for(int t=-thickness/2;t<=thickness/2;t++)
 		{
-			if(i==(int)(j*k+b+0.5))
+			//widen the line across its longer side.
+			int j = abs(dx)>abs(dy)?x:x+t;
+			int i = abs(dx)>abs(dy)?y+t:y;
+
+			if(i>=0&&i<rows&&j>=0&&j<cols)
 			{
-				for(int t=-thickness/2;t<=thickness/2;t++)
+				if(channels ==3)
 				{
-					if(j+t>=0&&j+t<cols)
-					{
-						if(channels ==3)
-						{
-							dst_data[i*cols*channels+(j+t)*channels] = color.r;
-							dst_data[i*cols*channels+(j+t)*channels+1] = color.g;
-							dst_data[i*cols*channels+(j+t)*channels+2] = color.b;
-						}
-						else if(channels == 1)
-							dst_data[i*cols+(j+t)] == color.r;
-					}
+					dst_data[i*cols*channels+j*channels] = color.r;
+					dst_data[i*cols*channels+j*channels+1] = color.g;
+					dst_data[i*cols*channels+j*channels+2] = color.b;
 				}
+				else if(channels == 1)
+					dst_data[i*cols+j] = color.r;
 			}
 		}
 	}
-- 
2.43.0


From e2191956b052916fb44f9d4d203617770c67fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 084/103] fix: rotation dropped the pixels whose place it
 computed from the wrong corner

---
 modules/process/src/c_src/GeometricTransformation.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index a15cd6d..393f1b2 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -186,8 +186,11 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 
 	hyper_mat dst_mat = create_hyper_mat_with_data(width, height, mat->bands,mat->data_type, mat->interleave, NULL, mat->wavelength);
 
-	int di = x0 + width / 2;
-	int dj = y0 + height / 2;
+	// the centre of the cube is turned onto the centre of the rotated cube
+	double ci = (mat->lines - 1) / 2.0;
+	double cj = (mat->samples - 1) / 2.0;
+	double di = (height - 1) / 2.0 + 0.5 - 1e-4;
+	double dj = (width - 1) / 2.0 + 0.5 - 1e-4;
 	
 	unsigned char* src_data = (unsigned char*)mat->data;
 	unsigned char* dst_data = (unsigned char*)dst_mat->data;
@@ -198,8 +201,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 	{
 		for(int j=0;j<mat->samples;j++)
 		{
-            int x = i * c + j * s + di;
-			int y = j * c - i * s + dj;
+            int x = floor((i - ci) * c + (j - cj) * s + di);
+			int y = floor((j - cj) * c - (i - ci) * s + dj);
 			if(x < 0 || x >= height || y < 0 || y >= width)
 				continue;
 			int dstOft = (x * width + y) * mat->bands * elem_size;
-- 
2.43.0


From be75a54d63252350d2c0b74511a09886b4c46c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:25 +0000
Subject: [PATCH 085/103] fix: the logarithm of multi-channel images left all
 channels but the first part untouched

---
 modules/process/src/c_src/imageprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 0d214a1..6915da8 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -643,7 +643,7 @@ void simple_mat_addition_float(simple_mat mat1, simple_mat mat2, simple_mat dst_
 void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 {
 	hypercv_assert(src_mat->data_type==4&&dst_mat->data_type == 4 , "input mat must be float mat");
-	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols, "src mat size == dst_mat size");
+	hypercv_assert(src_mat->rows == dst_mat->rows && src_mat->cols == dst_mat->cols && src_mat->channels == dst_mat->channels, "src mat size == dst_mat size");
 
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
@@ -651,7 +651,7 @@ void simple_mat_log(simple_mat src_mat, simple_mat dst_mat)
 	float* src_data = (float*)src_mat->data;
 	float* dst_data = (float*)dst_mat->data;
 
-	for(int i=0;i<rows*cols;i++)
+	for(int i=0;i<rows*cols*src_mat->channels;i++)
 		dst_data[i] = log(src_data[i]);
 }
 
-- 
2.43.0


From 5e17934d4e09c6628fb12cb718a0bb7b3d8da32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 086/103] fix: rotation of cubes of 2 GiB and more overflowed
 the offsets

---
 modules/process/src/c_src/GeometricTransformation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 393f1b2..61a5891 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -205,8 +205,8 @@ hyper_mat hyper_mat_rotate(hyper_mat mat, double angle)
 			int y = floor((j - cj) * c - (i - ci) * s + dj);
 			if(x < 0 || x >= height || y < 0 || y >= width)
 				continue;
-			int dstOft = (x * width + y) * mat->bands * elem_size;
-			int srcOft = (i * mat->samples + j) * mat->bands * elem_size;
+			size_t dstOft = ((size_t)x * width + y) * mat->bands * elem_size;
+			size_t srcOft = ((size_t)i * mat->samples + j) * mat->bands * elem_size;
 			unsigned char* src = src_data + srcOft;
 			unsigned char* dst = dst_data + dstOft;
 			memcpy(dst,src,mat->bands*elem_size);
-- 
2.43.0


From 904810952e121e059a1341c302417381ec5b2bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 087/103] fix: radiometric correction read cubes of other data
 types and layouts as by-pixel unsigned short or float

---
 .../src/c_src/RadiometricCalibration.c        | 148 +++++++++---------
 1 file changed, 76 insertions(+), 72 deletions(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index 97f8869..e8f6391 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -1,72 +1,76 @@
-#include "precomp.h"
-
-/**
-* @brief      hyper_mat relative correction.
-* @param[in]  bip_mat      hyper mat.
-* @param[in]  coefficient  correction coefficient.
-* @retval     hyper_mat    hyper image mat.
-**/
-hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
-{
-	int samples = bip_mat->samples;
-	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
-
-	unsigned short * bipdata = (unsigned short*)bip_mat->data;
-
-	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
-	
-	float* res_data = (float*)res->data;
-
-	for (int i = 0; i < lines; i++)
-	{
-		for (int j = 0; j < samples; j++)
-		{
-			for (int k = 0; k < bands; k++)
-			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
-			}
-		}
-	}
-	hyper_mat_copy_wavelength(bip_mat, res);
-	return res;
-}
-
-/**
-* @brief      hyper_mat absolute correction.
-* @param[in]  bip_mat      hyper mat.
-* @param[in]  coefficient  correction coefficient.
-* @retval     hyper_mat    hyper image mat.
-**/
-hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
-{
-	int samples = bip_mat->samples;
-	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
-
-	float* bipdata = (float*)bip_mat->data;
-
-	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
-
-	float* res_data = (float*)res->data;
-
-	for (int i = 0; i < lines; i++)
-	{
-		for (int j = 0; j < samples; j++)
-		{
-			for (int k = 0; k < bands; k++)
-			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
-			}
-		}
-	}
-	hyper_mat_copy_wavelength(bip_mat, res);
-	return res;
-}
-
-
-
-
-
-
-
+#include "precomp.h"
+
+/**
+* @brief      hyper_mat relative correction.
+* @param[in]  bip_mat      hyper mat.
+* @param[in]  coefficient  correction coefficient.
+* @retval     hyper_mat    hyper image mat.
+**/
+hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
+{
+	int samples = bip_mat->samples;
+	int lines = bip_mat->lines;
+	int bands = bip_mat->bands;
+
+	hypercv_assert(bip_mat->data_type == 12, "hyper mat's data type should be unsigned short");
+	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
+	unsigned short * bipdata = (unsigned short*)bip_mat->data;
+
+	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
+	
+	float* res_data = (float*)res->data;
+
+	for (int i = 0; i < lines; i++)
+	{
+		for (int j = 0; j < samples; j++)
+		{
+			for (int k = 0; k < bands; k++)
+			{
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
+			}
+		}
+	}
+	hyper_mat_copy_wavelength(bip_mat, res);
+	return res;
+}
+
+/**
+* @brief      hyper_mat absolute correction.
+* @param[in]  bip_mat      hyper mat.
+* @param[in]  coefficient  correction coefficient.
+* @retval     hyper_mat    hyper image mat.
+**/
+hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
+{
+	int samples = bip_mat->samples;
+	int lines = bip_mat->lines;
+	int bands = bip_mat->bands;
+
+	hypercv_assert(bip_mat->data_type == 4, "hyper mat's data type should be float");
+	hypercv_assert(cmpstr(bip_mat->interleave, "bip") == 1, "hyper mat interleave should be bip");
+	float* bipdata = (float*)bip_mat->data;
+
+	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
+
+	float* res_data = (float*)res->data;
+
+	for (int i = 0; i < lines; i++)
+	{
+		for (int j = 0; j < samples; j++)
+		{
+			for (int k = 0; k < bands; k++)
+			{
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
+			}
+		}
+	}
+	hyper_mat_copy_wavelength(bip_mat, res);
+	return res;
+}
+
+
+
+
+
+
+
-- 
2.43.0


From d07f4692cdf29e112556e52af5a089c34e9f6574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 088/103] fix: BMP images with a short palette or a longer
 header were read from the wrong offset

---
 modules/core/src/c_src/simplemat.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 826e967..32f4be5 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -125,7 +125,8 @@ simple_mat smread_bmp(const char *bmpName)
 	FILE *fp = fopen(bmpName, "rb");
 	hypercv_assert(fp!=NULL, "BMP IMAGE NOT EXIST");
 
-	fseek(fp, sizeof(BmpFileHeader), SEEK_SET);
+	BmpFileHeader fileHead;
+	fread(&fileHead, sizeof(BmpFileHeader), 1, fp);
 	BmpInfoHeader head;
 	fread(&head, sizeof(BmpInfoHeader), 1, fp);
  
@@ -143,7 +144,12 @@ simple_mat smread_bmp(const char *bmpName)
 	RGBQUAD colorTable[256];
 	memset(colorTable, 0, sizeof(colorTable));
 	if (biBitCount == 8)
-		fread(colorTable, sizeof(RGBQUAD), 256, fp);
+	{
+		int colors = (head.biClrUsed > 0 && head.biClrUsed < 256) ? head.biClrUsed : 256;
+		fseek(fp, sizeof(BmpFileHeader) + head.biSize, SEEK_SET);
+		fread(colorTable, sizeof(RGBQUAD), colors, fp);
+	}
+	fseek(fp, fileHead.bfOffBits, SEEK_SET);
 	
 	unsigned char* pBmpBuf = (unsigned char *)malloc(sizeof(unsigned char) * lineByte * bmpHeight);
 	fread(pBmpBuf, 1, (long int)lineByte * bmpHeight, fp);
-- 
2.43.0


From 80cd289e2ac5f0370bb9f3284d316a74417ba84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 089/103] fix: reading an image with non-positive rows or
 columns crashed before its size was checked

---
 modules/core/src/c_src/simplemat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 32f4be5..412bbaa 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -77,6 +77,7 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 
 	int elem_size = get_elemsize(data_type);
 	hypercv_assert(elem_size > 0 && channels > 0, "the data type or channels of mat is not supported ");
+	hypercv_assert(rows > 0 && cols > 0, "the rows and cols of mat must be greater than zero ");
 	long int data_size = (long int)rows * cols * channels;
 	void* data = (void *)malloc(data_size * elem_size);
 
-- 
2.43.0


From 73a4a737d0cabea6d4b9508ff5cb60f9fe469c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 090/103] fix: HyMat::save left the GDAL dataset and its files
 open

---
 modules/core/include/cxx_include/hypermat.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 6bf0fae..ca28721 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -243,6 +243,8 @@ namespace hypercv
 
 		char** papszOptions = NULL;
 		dataSet = hDriver->Create(filePath, samples, lines, bands, DT, papszOptions);
+		if(dataSet != NULL)
+			GDALClose(dataSet);
 
 		//	dataSet->RasterIO(GF_Write, 0, 0, samples, lines, data, DT, )
 		//todo	
-- 
2.43.0


From 618d24aa9f4c832733f996860524ae48ac5191a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 091/103] fix: invert_matrix_float pivots on the largest entry
 of the column instead of roundoff

---
 modules/process/src/c_src/matrixprocess.c | 24 ++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/modules/process/src/c_src/matrixprocess.c b/modules/process/src/c_src/matrixprocess.c
index 0c26058..996a528 100644
--- a/modules/process/src/c_src/matrixprocess.c
+++ b/modules/process/src/c_src/matrixprocess.c
@@ -430,20 +430,22 @@ void shear_row(float* mat, int rows, int cols, int r1, int r2, float scalar)
 void invert_matrix_float(float* res, float* mat, int m)
 {
 	set_identity_matrix_float(res,m);
-	int i,j,r;
+	int i,j,r,p;
 	for(i=0;i<m;i++)
 	{
-		if(mat[i*m+i] == 0.0)
+		//部分主元:选取该列绝对值最大的行
+		p = i;
+		for(r=i+1;r<m;r++)
 		{
-			for(r=i+1;r<m;r++)
-			{
-				if(mat[r*m+i]!=0.0)
-					break;
-			}
-			if(r == m)
-				return;
-			swap_rows_float(mat,m,m,i,r);
-			swap_rows_float(res,m,m,i,r);
+			if(fabs(mat[r*m+i]) > fabs(mat[p*m+i]))
+				p = r;
+		}
+		if(mat[p*m+i] == 0.0)
+			return;
+		if(p != i)
+		{
+			swap_rows_float(mat,m,m,i,p);
+			swap_rows_float(res,m,m,i,p);
 		}
 		float scalar = 1.0/mat[i*m+i];
 		matrix_row_multi_scalar_float(mat,m,m,i,scalar);
-- 
2.43.0


From 3d2aba4aa51ca8a7150c468ed692bbf8b783f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 092/103] fix: pyramid_up keeps the brightness of the image
 border

---
 modules/process/src/c_src/GeometricTransformation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 61a5891..39e9136 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -149,7 +149,8 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 	for(int i=0;i<5;i++)
 		kernel_data[i]=kernel_data[i]*2;
 
-	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,1);
+	// the inserted zeros must stay between samples across the edge too, or the border changes its brightness
+	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,BORDER_REFLECT_101);
 
 	delete_simple_mat(kernel);
 	delete_simple_mat(tmp);
-- 
2.43.0


From 86888b6cd3498f5ca08fb16f7198b1dc2c120e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:24 +0000
Subject: [PATCH 093/103] fix: the image pyramid refuses a result with other
 channels

---
 modules/process/src/c_src/GeometricTransformation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 39e9136..d22c34e 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -84,6 +84,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows ==(int)((src_rows+1)/2) && dst->cols==(int)((src_cols+1)/2),"dst size error");
 	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
+	hypercv_assert(dst->channels == src->channels, "dst channels error");
 	
 	simple_mat tmp = create_simple_mat(src_rows,src_cols,data_type,channels);
 
@@ -117,6 +118,7 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows == src_rows*2 && dst->cols== src_cols*2,"dst size error");
 	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
+	hypercv_assert(dst->channels == src->channels, "dst channels error");
 	
 	simple_mat tmp = simple_mat_copy(dst);
 
-- 
2.43.0


From 30e50ca0bc480e1b44753921a9a8333c4f534648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 094/103] fix: the image pyramid refuses images of other than 8
 bits

---
 modules/process/src/c_src/GeometricTransformation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index d22c34e..ce82f40 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -81,6 +81,7 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 	int channels = src->channels;
 
 	hypercv_assert(src_rows>=2&&src_cols>=2,"input mat size must > 2*2");
+	hypercv_assert(data_type == 1, "the pyramid works on 8 bit images");
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows ==(int)((src_rows+1)/2) && dst->cols==(int)((src_cols+1)/2),"dst size error");
 	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
@@ -115,6 +116,7 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 	int channels = src->channels;
 
 	hypercv_assert(src_rows>=2&&src_cols>=2,"input mat size must > 2*2");
+	hypercv_assert(data_type == 1, "the pyramid works on 8 bit images");
 	hypercv_assert(dst != NULL, "dst mat == null");
 	hypercv_assert(dst->rows == src_rows*2 && dst->cols== src_cols*2,"dst size error");
 	hypercv_assert(dst->data_type == src->data_type, "dst data_type error");
-- 
2.43.0


From 86d663e3d12ee2f224d1547eb802a065f5be64a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:20 +0000
Subject: [PATCH 095/103] fix: pca refuses cubes of other than float instead of
 relabelling them

---
 modules/algorithm/src/pca.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index cbe71c5..128ce21 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -36,7 +36,8 @@ static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat r
 void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 {
 
-	hypercv_assert(bip_mat->data_type = 4,"only use in float");
+	hypercv_assert(bip_mat != NULL,"input hyper mat must not be NULL");
+	hypercv_assert(bip_mat->data_type == 4,"only use in float");
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
-- 
2.43.0


From 0875ef4422795dff1357213a9ed98b459cec391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:28 +0000
Subject: [PATCH 096/103] fix: pca refuses results of another shape, type or
 interleave

---
 modules/algorithm/src/pca.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index 128ce21..850b399 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -41,6 +41,8 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	int samples = bip_mat->samples;
 	int lines = bip_mat->lines;
 	int bands = bip_mat->bands;
+	hypercv_assert(res_bip_mat != NULL && res_bip_mat->data_type == 4 && cmpstr(res_bip_mat->interleave,"bip") == 1,"result must be float bip");
+	hypercv_assert(res_bip_mat->samples == samples && res_bip_mat->lines == lines && res_bip_mat->bands == bands,"result size == input size");
 //计算平均图像	
 	simple_mat mean_mat = create_simple_mat(lines,samples,4,1);
 	hyper_mat_mean(bip_mat,mean_mat);
-- 
2.43.0


From d4d2d70cc65bc060571a637e563f144be0988b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:36 +0000
Subject: [PATCH 097/103] fix: the QR iteration of pca multiplies R by Q

---
 modules/algorithm/src/pca.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index 850b399..accbf5b 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -58,7 +58,7 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	for(int i=0;i<iteration;i++)//迭代qr分解
 	{
 		matrix_QR_float((float*)temp->data,(float*)q_mat->data,(float*)r_mat->data,bands);
-		MulMatrix_float((float*)q_mat->data,(float*)r_mat->data,(float*)temp->data,bands,bands,bands);
+		MulMatrix_float((float*)r_mat->data,(float*)q_mat->data,(float*)temp->data,bands,bands,bands);
 	}
 	//计算特征值，特征向量
 	float* evalue = (float*)malloc(bands*sizeof(float));
-- 
2.43.0


From f099db0a7c086343c3196b1bc2f5c00f2795f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 098/103] fix: pca frees its eigenvalues

---
 modules/algorithm/src/pca.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index accbf5b..7ae7549 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -87,5 +87,6 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	delete_simple_mat(q_mat);
 	delete_simple_mat(temp);
 	delete_simple_mat(eigen_vector);
+	free(evalue);
 
 }
-- 
2.43.0


From f94301d67a2b6d535b11cf86c2b333373870424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:50 +0000
Subject: [PATCH 099/103] fix: pca centres every band on its own mean

---
 modules/algorithm/src/pca.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/modules/algorithm/src/pca.c b/modules/algorithm/src/pca.c
index 7ae7549..5ece788 100644
--- a/modules/algorithm/src/pca.c
+++ b/modules/algorithm/src/pca.c
@@ -9,24 +9,23 @@
 static void cal_covariance_matrix(simple_mat x, simple_mat mean_mat,simple_mat res_mat)
 {//only for float
 
-	int samples = mean_mat->cols;
-	int lines = mean_mat->rows;
+	int pixels = x->rows;
 	int bands = x->cols;
 
 	float* x_data = (float*)x->data;
 	float* mean_data = (float*)mean_mat->data;
 	float* res_data = (float*)res_mat->data;
 	
-	for(int i=0;i<samples*lines;i++)
+	for(int i=0;i<pixels;i++)
 		for (int j=0;j<bands;j++)
-			 x_data[i*bands+j] -= mean_data[i];
+			 x_data[i*bands+j] -= mean_data[j];
 
-	simple_mat t = create_simple_mat(bands,samples*lines,4,1);
+	simple_mat t = create_simple_mat(bands,pixels,4,1);
     simple_mat_transport(t,x);
 
 	float* t_data = (float*)t->data;
 	
-	MulMatrix_float(t_data,x_data,res_data,bands,lines*samples,bands);
+	MulMatrix_float(t_data,x_data,res_data,bands,pixels,bands);
 	
 	delete_simple_mat(t);
 }
@@ -44,8 +43,15 @@ void hyper_mat_pca(hyper_mat bip_mat,hyper_mat res_bip_mat,int iteration)
 	hypercv_assert(res_bip_mat != NULL && res_bip_mat->data_type == 4 && cmpstr(res_bip_mat->interleave,"bip") == 1,"result must be float bip");
 	hypercv_assert(res_bip_mat->samples == samples && res_bip_mat->lines == lines && res_bip_mat->bands == bands,"result size == input size");
 //计算平均图像	
-	simple_mat mean_mat = create_simple_mat(lines,samples,4,1);
-	hyper_mat_mean(bip_mat,mean_mat);
+	hypercv_assert(cmpstr(bip_mat->interleave,"bip") == 1,"hyper mat interleave should be bip");
+	simple_mat mean_mat = create_simple_mat(1,bands,4,1);
+	for(int j=0;j<bands;j++)
+	{
+		double sum = 0;
+		for(int i=0;i<samples*lines;i++)
+			sum += ((float*)bip_mat->data)[i*bands+j];
+		((float*)mean_mat->data)[j] = sum/(samples*lines);
+	}
 //计算自相关矩阵
 	simple_mat reshape_mat = reshape_hypermat_2_simplemat(bip_mat,samples*lines,bands);
 	simple_mat cov_mat = create_simple_mat(bands,bands,4,1);
-- 
2.43.0


From 20a531fa50b7f933d5a0b7ebfc897e9dee86d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:05 +0000
Subject: [PATCH 100/103] fix: a satellite orbit is allocated before it is
 filled in

---
 modules/satellite/src/satellite_orbit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index 7ee8954..dda82db 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -43,7 +43,8 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 		long double cic,
 		long double omegadot)
 {
-	sat_orbit orb;
+	sat_orbit orb = (sat_orbit)malloc(sizeof(SATELLITE_ORBIT));
+	hypercv_assert(orb != NULL,"out of memory");
 	orb->as = as;
 	orb->es = es;
 	orb->omega = omega;
-- 
2.43.0


From 03e1a0f95eb1427fb7fb5c7a579041cb733de606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:11 +0000
Subject: [PATCH 101/103] fix: the orbit's time since the reference time is
 computed

---
 modules/satellite/src/satellite_orbit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index dda82db..dd75549 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -66,6 +66,7 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 	orb->n0 = sqrt(bGM84 / (as*as*as));
 	orb->n = orb->n0 + orb->delta_n;
 
+	orb->tk = orb->t - orb->toe;
 	orb->Mk = orb->M0 + orb->n*orb->tk;
 
 	for (int i = 0; i < 10; i++)
-- 
2.43.0


From bf216d68e11ed4b313f3c4c4e654d8e94f5e3b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:18 +0000
Subject: [PATCH 102/103] fix: Kepler's equation is iterated from the mean
 anomaly

---
 modules/satellite/src/satellite_orbit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index dd75549..2e2e314 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -69,6 +69,7 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 	orb->tk = orb->t - orb->toe;
 	orb->Mk = orb->M0 + orb->n*orb->tk;
 
+	orb->E = orb->Mk;
 	for (int i = 0; i < 10; i++)
 		orb->E = orb->Mk + orb->es*sin(orb->E);
 
-- 
2.43.0


From c4e719335c8845fe9870d76533ca855e805eeb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:25 +0000
Subject: [PATCH 103/103] fix: the true anomaly uses the tangent of half the
 eccentric anomaly

---
 modules/satellite/src/satellite_orbit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/satellite/src/satellite_orbit.c b/modules/satellite/src/satellite_orbit.c
index 2e2e314..a6bbd8b 100644
--- a/modules/satellite/src/satellite_orbit.c
+++ b/modules/satellite/src/satellite_orbit.c
@@ -73,7 +73,7 @@ sat_orbit hypercv_create_orbit(long double as,      // 轨道长半轴
 	for (int i = 0; i < 10; i++)
 		orb->E = orb->Mk + orb->es*sin(orb->E);
 
-	orb->f = 2 * atan(sqrt((1 + orb->es) / (1 - orb->es))* (tan(orb->E)) / 2);
+	orb->f = 2 * atan(sqrt((1 + orb->es) / (1 - orb->es))* tan(orb->E / 2));
 
 	orb->phik = orb->f + orb->ws;
 
-- 
2.43.0

